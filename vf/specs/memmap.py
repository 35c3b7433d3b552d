"""C07: the memory map document (MemorySim_GetMemoryMapXML) and how the debugger gets it.

The elements of the document lie one behind the other: element k starts at pos(k), given by recursion over the regions.
The unit `layout` proves by induction the lemmas about pos that the unit `GetMemoryMapXML` uses as facts."""
from ..target import *
from ..exc import *
from ..libc import cstr
from .memsim import M, Def, newobjs, nullp, thrown_is
from ..memmodel import *

P7 = ('C07',)
PX = ('C07', 'C13')
MAX = 1 << 24           # regions
HEADER = b'<?xml version="1.0"?><!DOCTYPE memory-map PUBLIC "+//IDN gnu.org//DTD GDB Memory Map V1.0//EN" "http://sourceware.org/gdb/gdb-memory-map.dtd"><memory-map>'
TRAILER = b'</memory-map>'
A, B, C, D = b'<memory type="', b'" start="0x', b'" length="0x', b'">'
BLOCK, END = b' <property name="blocksize">1</property>', b'</memory>'
LRO = len(A + b'flash' + B + C + D + BLOCK + END)
LRW = len(A + b'ram' + B + C + D + END)


class Text:
    """a piece of text: (length, character at an index below the length)"""
    HL = z3.Function('hexDigits', z3.BitVecSort(32), z3.BitVecSort(64))
    HD = z3.Function('hexDigit', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(8))

    @staticmethod
    def lit(s):
        def ch(i):
            if isinstance(i, int):
                return s[i] if i < len(s) else 0
            v = 0
            for k in range(len(s) - 1, -1, -1):
                v = If(Eq(i, k, 64), s[k], v, 8)
            return v
        return (len(s), ch)

    @staticmethod
    def hex(v):
        b = bv(v, 32)
        return (Text.HL(b), lambda i: Text.HD(b, bv(i, 64)))

    @staticmethod
    def join(parts):
        starts, at = [], 0
        for (l, ch) in parts:
            starts.append(at)
            at = Add(at, l, 64)

        def ch(i):
            v = 0
            for (s, (l, c)) in reversed(list(zip(starts, parts))):
                v = If(ULT(i, Add(s, l, 64), 64), c(Sub(i, s, 64)), v, 8)
            return v
        return (at, ch)


class Doc:
    """where the elements of the document are"""
    def __init__(self, ro, base, size):
        B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64)
        pos, at, el = z3.Function('elementPosition', B32, B64), z3.Function('elementAt', B64, B32), z3.Function('elementChar', B32, B64, z3.BitVecSort(8))
        self.pos = lambda k: pos(bv(k, 32))
        self.at = lambda o: at(bv(o, 64))
        self.char = lambda k, i: el(bv(k, 32), bv(i, 64))
        self.ro, self.base, self.size = ro, base, size

    def text(self, k, ro):
        return Text.join([Text.lit(A + (b'flash' if ro else b'ram') + B), Text.hex(self.base(k)), Text.lit(C), Text.hex(self.size(k)), Text.lit(D + (BLOCK if ro else b'') + END)])

    def len(self, k):
        return Add(If(self.ro(k), LRO, LRW, 64), Add(Text.HL(bv(self.base(k), 32)), Text.HL(bv(self.size(k), 32)), 64), 64)

    def hexes(self, k):
        r = True
        for v in (self.base(k), self.size(k)):
            l = Text.HL(bv(v, 32))
            r = And(r, ULE(1, l, 64), ULE(l, 8, 64))
        return r

    def step(self, k):
        return And(Eq(self.pos(0), len(HEADER), 64), Eq(self.pos(Add(k, 1, 32)), Add(self.pos(k), self.len(k), 64), 64), self.hexes(k))

    # ---- lemmas
    def bounds(self, k):
        """element k starts behind the header, and each element has at most LRO + 16 characters"""
        k64 = ZX(k, 32, 64)
        return And(ULE(len(HEADER), self.pos(k), 64), ULE(self.pos(k), Add(len(HEADER), Mul(k64, LRO + 16, 64), 64), 64))

    def apart(self, m, k):
        """the elements do not overlap"""
        return Implies(ULT(m, k, 32), ULE(Add(self.pos(m), self.len(m), 64), self.pos(k), 64))

    def covers(self, k, o):
        return And(ULE(self.pos(k), o, 64), ULT(Sub(o, self.pos(k), 64), self.len(k), 64))


def lemmas():
    r = Run('memmap/layout', ['try_catch'], {}, P7)
    st = r.state()
    F32 = lambda n: (lambda f: (lambda k: f(bv(k, 32))))(z3.Function(n, z3.BitVecSort(32), z3.BitVecSort(32)))
    base, size, rof = F32('base'), F32('size'), F32('readOnly')
    d = Doc(lambda k: Not(Eq(rof(k), 0, 32)), base, size)
    k, m = z3.BitVec('k', 32), z3.BitVec('m', 32)
    k1 = Add(k, 1, 32)

    def unit(name, hyps, goal):
        s = st.copy()
        for h in hyps:
            s.assume(h)
        r.check(s, goal, 'lemma ' + name, P7)
        r.cover([s], 'lemma ' + name)
    lt = ULT(k, MAX, 32)
    unit('bounds, at the start', [d.step(bv(0, 32))], d.bounds(bv(0, 32)))
    unit('bounds, next region', [lt, d.step(k), d.bounds(k)], d.bounds(k1))
    unit('apart, at its region', [ULT(m, MAX, 32), d.step(m), d.bounds(m)], d.apart(m, Add(m, 1, 32)))
    unit('apart, next region', [lt, ULT(m, k, 32), d.step(k), d.step(m), d.bounds(k), d.bounds(m), d.apart(m, k)], d.apart(m, k1))
    # two elements never share a character: this makes elementAt a function
    o = z3.BitVec('o', 64)
    unit('one element at each place', [ULT(m, k, 32), lt, d.apart(m, k), d.hexes(m), d.bounds(m), d.bounds(k), d.covers(m, o)], Not(d.covers(k, o)))


def document(xml):
    def go():
        fn = 'MemorySim_GetMemoryMapXML'
        m = M('GetMemoryMapXML/' + ('again' if xml else 'first'), PX)
        ms, ex, r, st = m.ms, m.ex, m.r, m.st0
        ex.merge_min = 2
        N = ms.N0
        st.assume(ULT(N, MAX, 32))
        xo = None
        if xml:
            xo = Obj('xmlDocument', 'heap', z3.BitVec('xmlSize', 64))
            st.mem[xo] = Content({}, uf_store('xmlBytes', 8, 64))
            ex.wr(st, ms.sim, ms.lay.s['pMemoryMapXML'][0], 8, Ptr(xo, 0))
        u = ms.u
        d = Doc(ms.ro0, lambda k: u['baseAddress'](bv(k, 32)), lambda k: u['size'](bv(k, 32)))
        # ---- facts
        st.facts.append(Fact('pos', lambda k: And(Implies(ULE(k, MAX, 32), d.bounds(k)), Implies(ULT(k, MAX, 32), d.step(k)))))
        st.facts.append(Fact('apart', lambda p: Implies(ULE(p[1], MAX, 32), d.apart(*p))))
        st.facts.append(Fact('at', lambda p: Implies(And(ULT(p[0], MAX, 32), d.covers(*p)), Eq(d.at(p[1]), p[0], 32))))

        def elem(p):
            k, i = p
            ro, rw = d.text(k, True), d.text(k, False)
            return Eq(d.char(k, i), If(d.ro(k), ro[1](i), rw[1](i), 8), 8)
        st.facts.append(Fact('elem', elem))
        st.term('pos', bv(0, 32))
        st.term('pos', bv(N, 32))
        st0 = st.copy()
        # ---- contracts
        old_cpy, old_fmt = ex.libc['memcpy'], ex.libc['snprintf']

        def doc(p):
            return isinstance(p, Ptr) and not isinstance(p.b, Fam) and p.b.kind == 'heap' and p.b is not xo

        def cpy(ex, st, a, ins):
            d_, s_, n = a
            if doc(d_) and isinstance(n, int) and isinstance(d_.off, int):
                rd = ex.byte_reader(st, s_)
                ex.access(st, s_, n, 'load')
                ex.write_block(st, d_, n, n, rd)
                return [(st, d_)]
            return old_cpy(ex, st, a, ins)
        ex.libc['memcpy'] = ex.libc['memmove'] = cpy

        def fmt(ex, st, a, ins):
            buf, n, f = a[0], a[1], cstr(ex, st, a[2])
            if not doc(buf):
                return old_fmt(ex, st, a, ins)
            if f is None:
                raise Unsupported('unknown format')
            parts, lit, args, i = [], b'', list(a[3:]), 0
            while i < len(f):
                c = f[i:i + 1]
                i += 1
                if c != b'%':
                    lit += c
                    continue
                c = f[i:i + 1]
                i += 1
                if c == b'%':
                    lit += c
                    continue
                if not args:
                    ex.oblige(st, False, 'an argument for each conversion')
                v = args.pop(0)
                if c == b's':
                    s = cstr(ex, st, v)
                    if s is None:
                        raise Unsupported('unknown string argument')
                    lit += s
                elif c == b'X':
                    parts.append(Text.lit(lit))
                    lit = b''
                    if not is_int(v):
                        raise Unsupported('argument of %X')
                    l = Text.HL(bv(v, 32))
                    st.assume(And(ULE(1, l, 64), ULE(l, 8, 64)))
                    parts.append(Text.hex(v))
                else:
                    raise Unsupported('conversion %%%s' % c.decode('latin-1'))
            parts.append(Text.lit(lit))
            l, ch = Text.join(parts)
            # what does not fit is cut off
            cut = Not(ULT(l, n, 64))
            out = []
            s2 = st.copy()
            s2.assume(cut)
            if ex.feasible(st, cut):
                n1 = Sub(n, 1, 64)
                s2.assume(Not(Eq(n, 0, 64)))
                ex.write_range(s2, buf, n, lambda i: If(ULT(i, n1, 64), ch(i), 0, 8))
                out.append((s2, TR(l, 64, 32)))
            if ex.feasible(st, Not(cut)):
                st.assume(Not(cut))
                ex.write_range(st, buf, Add(l, 1, 64), lambda i: If(ULT(i, l, 64), ch(i), 0, 8))
                out.append((st, TR(l, 64, 32)))
            return out
        ex.libc['snprintf'] = fmt
        # ---- loop summaries
        hit = lambda o, K: And(ULT(d.at(o), K, 32), d.covers(d.at(o), o))

        def summ(cut, loc):
            if loc[0] != 'bg' or loc[1].kind != 'heap' or loc[1] is xo:
                return ()
            bg = cut.get_store(cut.st, loc)

            def fn(K):
                return Store(lambda o: If(hit(o, K), d.char(d.at(o), Sub(o, d.pos(d.at(o)), 64)), If(And(Not(Eq(K, 0, 32)), Eq(o, d.pos(K), 64)), 0, bg.read(o), 8), 8), 8, 'elements', (), (64,))
            return [Def('elements', fn)]
        ex.summarizers = [summ]

        def terms(s, o, K, el=None):
            if el is not None:
                s.term2('elem', (bv(el, 32), bv(Sub(o, d.pos(el), 64), 64)))
            t = d.at(o)
            for k in (t, K):
                s.term('pos', bv(k, 32))
                s.term('node', bv(k, 32))
                s.term2('at', (bv(k, 32), bv(o, 64)))
            s.term2('apart', (t, bv(K, 32)))
            s.term2('apart', (t, bv(Add(K, 1, 32), 32)))

        def keys(ex, s, loc, ks, K):
            if loc[0] == 'bg':
                terms(s, ks[0], K, K)
        ex.key_hooks.append(keys)
        ex.header_hooks.append(lambda ex, s, K: (s.term('pos', bv(K, 32)), s.term('node', bv(K, 32))))
        total = lambda st: None

        def forms(cut, loc, w):
            if w == 32:
                return [('count', lambda K: K)]
            out = [('position', lambda K: d.pos(K)), ('count', lambda K: ZX(K, 32, 64))]
            for o in cut.st.mem:
                if o.kind == 'heap' and o is not xo:
                    out.append(('left', lambda K, o=o: Sub(o.size, d.pos(K), 64)))
            return out
        ex.intforms.append(forms)
        # ---- the call
        what = 'GetMemoryMapXML'
        kinds = {}
        for s in r.call(st, fn, [m.p]):
            kinds.setdefault(s.done[0], []).append(s.copy())
            chk = lambda c, nm, props=P7: m.chk(s, c, what + ': ' + nm, props)
            chk(chain_ok(r, s), 'handler chain', ('C13',))
            for n in m.st0.stores:
                chk(m.same_store(m.st0, s, n), '%s unchanged' % n)
            for f in SFLD:
                if f != 'pMemoryMapXML':
                    a, b = ms.sget(m.st0, f), ms.sget(s, f)
                    chk(ex.ptr_eq(s, a, b) if isinstance(a, Ptr) and isinstance(b, Ptr) else Eq(a, b, 32), '%s unchanged' % f)
            p = ms.sget(s, 'pMemoryMapXML')
            new = [o for o in s.mem if o.kind == 'heap' and o not in st0.mem]
            if s.done[0] == 'throw':
                chk(s.ghost.get('oom'), 'only running out of memory fails', PX)
                chk(thrown_is(m, s, 'outOfMemory'), 'running out of memory is reported', PX)
                chk(not new, 'nothing is left allocated', ('C13',))
                chk(isinstance(p, Ptr) and (p.b is xo and p.off == 0 if xml else nullp(ex, s, p) is True), 'the previous document stays in place', PX)
                if xml:
                    o = fresh(64, 'any')
                    same = xo in s.mem and Implies(ULT(o, xo.size, 64), Eq(ex.byte_reader(s, Ptr(xo, 0))(o), ex.byte_reader(st0, Ptr(xo, 0))(o), 8))
                    chk(same, 'the previous document stays valid', PX)
                continue
            v = s.done[1]
            chk(not s.ghost.get('oom'), 'no failure is hidden', PX)
            good = isinstance(v, Ptr) and isinstance(p, Ptr) and v.b is p.b and v.off == 0 and p.off == 0 and new == [v.b] and v.b in s.mem
            chk(good, 'the document is returned and kept', PX)
            chk(xo is None or xo not in s.mem, 'the previous document is released', ('C13',))
            if not good:
                continue
            rd = ex.byte_reader(s, v)
            s.term('pos', bv(N, 32))
            i = fresh(64, 'anyChar')
            terms(s, i, N)
            chk(Implies(ULT(i, len(HEADER), 64), Eq(rd(i), Text.lit(HEADER)[1](i), 8)), 'the document begins with its header')
            k, j = fresh(32, 'anyRegion'), fresh(64, 'anyChar')
            o = Add(d.pos(k), j, 64)
            s.term2('elem', (k, j))
            terms(s, o, k)
            terms(s, o, N)
            s.term2('apart', (k, bv(N, 32)))
            for ro in (True, False):
                l, ch = d.text(k, ro)
                chk(Implies(And(ULT(k, N, 32), tb(d.ro(k)) if ro else Not(d.ro(k)), ULT(j, l, 64)), Eq(rd(o), ch(j), 8)), 'each %s region has its element, in order' % ('read-only' if ro else 'writable'))
            e = Add(d.pos(N), len(TRAILER), 64)
            o = Add(d.pos(N), j, 64)
            terms(s, o, N)
            chk(Implies(ULE(j, len(TRAILER), 64), Eq(rd(o), Text.lit(TRAILER + b'\0')[1](j), 8)), 'the document ends with its trailer and a terminator')
        r.cover(kinds.get('ret', []), what, lambda s: ULT(2, N, 32))
        r.cover(kinds.get('throw', []), what + ' fails')
    return go


def platform():
    """the debugger is given the document and its length"""
    r = Run('memmap/platform', ['mriPlatform', 'try_catch'], {}, P7)
    ex = r.ex
    st = r.state()
    setup(r, st)
    o = Obj('document', 'ext', z3.BitVec('documentSize', 64))
    st.mem[o] = Content({}, uf_store('documentByte', 8, 64))
    n = z3.BitVec('documentLength', 64)
    st.assume(And(ULT(n, o.size, 64), ULT(n, 1 << 32, 64)))
    asked = []
    mem = Obj('memory', 'ext', 8)
    st.mem[mem] = Content({}, uf_store('memoryByte', 8, 64))

    def get(ex, st, a, ins):
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].b is mem and a[0].off == 0, 'the document of the memory under debugging')
        return [(st, Ptr(o, 0))]
    ex.contracts['MemorySim_GetMemoryMapXML'] = get

    def strlen(ex, st, a, ins):
        if not (isinstance(a[0], Ptr) and a[0].b is o and a[0].off == 0):
            raise Unsupported('strlen of something else')
        return [(st, n)]
    ex.libc['strlen'] = strlen
    if 'g_pMemory' not in r.mods['mriPlatform'].globals:
        raise Unsupported('no g_pMemory')
    r.gset(st, 'g_pMemory', Ptr(mem, 0), 8)
    for fn in ('Platform_GetDeviceMemoryMapXmlSize', 'Platform_GetDeviceMemoryMapXml'):
        fs = r.call(st.copy(), fn, [])
        for s in fs:
            v = s.done[1] if s.done[0] == 'ret' else None
            r.check(s, s.done[0] == 'ret', fn + ': returns', P7)
            if fn.endswith('Size'):
                r.check(s, is_int(v) and Eq(v, TR(n, 64, 32), 32), fn + ': the length of the document', P7)
            else:
                r.check(s, isinstance(v, Ptr) and v.b is o and v.off == 0, fn + ': the document', P7)
        r.cover(fs, fn)


ASSUMPTIONS = [
    'fewer than 2^24 regions',
    'snprintf %X writes hexDigits(v) characters hexDigit(v,i), 1 to 8 of them and none of them NUL; %s copies',
    'the assertion macros are compiled in (a failing assert is a violation)',
]

UNITS = [('layout', P7, lemmas), ('GetMemoryMapXML', PX, document(False)), ('GetMemoryMapXML again', PX, document(True)), ('platform', P7, platform)]
