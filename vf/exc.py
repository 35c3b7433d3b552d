"""The exception machinery around a target: arbitrary pending code and message, an arbitrary chain of outer handlers."""
import z3
from .core import *
from .smt import *


def setup(r, st, outer=True):
    ex = r.ex
    ex.gcode, ex.gmsg, ex.ghandlers = r.g('g_exceptionCode'), r.g('g_exceptionMessage'), r.g('g_pExceptionHandlers')
    c = z3.BitVec('code0', 32)
    st.assume(c >= 0)
    r.gset(st, 'g_exceptionCode', c, 4)
    ex.content(st, ex.gmsg)
    if outer:
        o = Obj('outerHandler', 'ext', 16)
        b = Obj('outerBuffer', 'ext', 200)
        prev = Obj('outerPrevious', 'ext', 16)
        st.mem[o] = Content({0: (8, Ptr(prev, 0)), 8: (8, Ptr(b, 0))}, None)
        st.jumps = dict(st.jumps)
        st.jumps[b] = OUTER
        r.gset(st, 'g_pExceptionHandlers', Ptr(o, 0), 8)
        r.outer = (o, prev, b)
    else:
        r.gset(st, 'g_pExceptionHandlers', NULL, 8)
        r.outer = None
    return c


def chain_ok(r, s):
    """the handler chain is the one of the start"""
    p = r.gget(s, 'g_pExceptionHandlers', 8, 0, True)
    if not isinstance(p, Ptr):
        return False
    if r.outer is None:
        return p.b is NULLOBJ and p.off == 0
    o, prev, b = r.outer
    if p.b is not o or p.off != 0:
        return False
    c = s.mem[o].cells
    return set(c) == {0, 8} and c[0][1].b is prev and c[8][1].b is b and c[0][1].off == 0 and c[8][1].off == 0


def code(r, s):
    return r.gget(s, 'g_exceptionCode', 4)


def unchanged(r, s0, s1, but=()):
    """every object of s0 has the same contents in s1 (objects never touched count as unchanged)"""
    bad = []
    for o in set(s0.mem) | set(s1.mem):
        if o in but:
            continue
        c0 = s0.mem.get(o)
        c1 = s1.mem.get(o)
        if o.kind in ('global', 'const'):
            c0 = c0 or r.ex.init_content(o)
            c1 = c1 or r.ex.init_content(o)
        if c0 is c1:
            continue
        if c0 is None or c1 is None:
            if o.kind == 'stack':
                continue
            bad.append(o.name)
            continue
        if c0.flds is not c1.flds or (c0.bg is not c1.bg and not (c0.bg and c1.bg and c0.bg.same(c1.bg))):
            bad.append(o.name)
            continue
        cond = True
        for k in set(c0.cells) | set(c1.cells):
            e0, e1 = c0.cells.get(k), c1.cells.get(k)
            n = (e0 or e1)[0]
            v0 = r.ex.rd(s0, o, c0, k, n, isinstance((e0 or e1)[1], Ptr))
            v1 = r.ex.rd(s1, o, c1, k, n, isinstance((e0 or e1)[1], Ptr))
            if same_val(v0, v1):
                continue
            if is_int(v0) and is_int(v1):
                cond = And(cond, Eq(v0, v1, 8 * n))
            else:
                cond = False
        if cond is not True:
            bad.append((o.name, cond))
    res = True
    for b in bad:
        res = And(res, b[1]) if isinstance(b, tuple) else False
    return res


class AMem:
    """abstract IMemory implementation: the contract of the simulated memory as seen by its clients.  Reads are a function of the
    address; any access may fault (raise any exception)."""
    def __init__(self, r, st, deterministic=True, log=None):
        self.r = r
        self.log = log
        ex = r.ex
        self.obj = Obj('memory', 'ext', 8)
        self.vt = Obj('memoryVTable', 'ext', 48)
        names = ['read32', 'read16', 'read8', 'write32', 'write16', 'write8']
        st.mem[self.vt] = Content({8 * i: (8, ex.func_ptr('spec_' + n)) for i, n in enumerate(names)}, None)
        st.mem[self.obj] = Content({0: (8, Ptr(self.vt, 0))}, None)
        self.p = Ptr(self.obj, 0)
        self.val = {w: z3.Function('mem%d' % w, z3.BitVecSort(32), z3.BitVecSort(w)) for w in (8, 16, 32)}
        self.miss = {(d, w): z3.Function('%sFaults%d' % (d, w), z3.BitVecSort(32), z3.BoolSort()) for w in (8, 16, 32) for d in ('read', 'write')}
        for w in (8, 16, 32):
            ex.contracts['spec_read%d' % w] = self.mk('read', w)
            ex.contracts['spec_write%d' % w] = self.mk('write', w)

    def mk(self, d, w):
        def h(ex, st, a, ins):
            if not (isinstance(a[0], Ptr) and a[0].b is self.obj and a[0].off == 0):
                ex.oblige(st, False, 'the access goes to the simulated memory')
            if self.log:
                st.ghost[self.log] = st.ghost[self.log] + ((d, w) + tuple(a[1:]),)
            m = self.miss[(d, w)](bv(a[1], 32))
            out = []
            if ex.feasible(st, m):
                s2 = st.copy()
                s2.assume(m)
                c = fresh(32, 'code')
                s2.assume(c > 0)
                out.append(ex.throw(s2, c))
            if ex.feasible(st, Not(m)):
                st.assume(Not(m))
                out.append((st, self.val[w](bv(a[1], 32)) if d == 'read' else None))
            return out
        return h
