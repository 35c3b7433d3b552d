"""C08 (and the parts of C13): ElfLoad.c.

The blob is an arbitrary byte sequence of arbitrary length (up to 2^31).  The expected result is given by recursion over the
program header table: pos(h) is the file offset of header h, cnt(h) the number of loadable segments before header h, and
segment number cnt(h) has the address, size and file offset of header h when header h is loadable."""
from ..target import *
from ..exc import *
from ..absmem import AbsMem
from ..codes import codes
from .memsim import Def

P = ('C08', 'C13')
PT_LOAD = 1


def z64(x, w=32):
    return ZX(x, w, 64)


class E:
    pass


def thrown_is(r, s, code0, *names):
    c = codes()
    t = code(r, s)
    return Or(*[Or(Eq(t, c[n], 32), Eq(t, If(S(code0 > c[n]), code0, c[n], 32), 32)) for n in names])


def load():
    smt.INT_FIRST[0] = True
    r = Run('elf/ElfLoad_FromMemory', ['ElfLoad', 'try_catch'], {}, P)
    ex = r.ex
    r.internals('ElfLoad')
    st = r.state()
    code0 = setup(r, st)
    r.oomcode = codes()['outOfMemory']
    mem = AbsMem(r, st)
    n = z3.BitVec('blobSize', 64)
    st.assume(ULE(n, 1 << 31, 64))
    blob = Obj('blob', 'ext', n)
    f = uf_store('blob_byte', 8, 64)
    st.mem[blob] = Content({}, f)
    rd = lambda off, k: concat_bytes([f.read(Add(off, i, 64)) for i in range(k)])
    # ---- the file header
    H = lambda off, k: rd(off, k)
    phoff, phentsize, phnum = H(28, 4), H(42, 2), H(44, 2)
    short = ULT(n, 52, 64)
    badhdr = Or(short, Not(Eq(H(0, 4), 0x464c457f, 32)), Not(Eq(H(4, 1), 1, 8)), Not(Eq(H(5, 1), 1, 8)), Not(Eq(H(16, 2), 2, 16)),
                Eq(phoff, 0, 32), Eq(phnum, 0, 16), ULT(phentsize, 32, 16))
    # ---- the program headers
    pos = z3.Function('pos', z3.BitVecSort(32), z3.BitVecSort(32))
    cnt = z3.Function('cnt', z3.BitVecSort(32), z3.BitVecSort(32))
    eb = z3.Function('segAddr', z3.BitVecSort(32), z3.BitVecSort(32))
    es = z3.Function('segSize', z3.BitVecSort(32), z3.BitVecSort(32))
    eo = z3.Function('segOffset', z3.BitVecSort(32), z3.BitVecSort(32))
    field = lambda h, o: rd(Add(z64(pos(h)), o, 64), 4)
    ptype, poffset, paddr, pfilesz, pmemsz = [lambda h, o=o: field(h, o) for o in (0, 4, 12, 16, 20)]
    loadable = lambda h: And(Eq(ptype(h), PT_LOAD, 32), Not(Eq(pfilesz(h), 0, 32)), ULE(pfilesz(h), pmemsz(h), 32))
    hdrout = lambda h: Not(ULE(Add(z64(pos(h)), 32, 64), n, 64))
    segout = lambda h: Not(ULE(Add(z64(poffset(h)), z64(pfilesz(h)), 64), n, 64))
    bad = lambda h: Or(hdrout(h), And(loadable(h), segout(h)))
    num = ZX(phnum, 16, 32)
    st.assume(S(pos(bv(0, 32)) == phoff))
    st.assume(S(cnt(bv(0, 32)) == 0))
    # scope: a segment does not reach past the end of the address space (no such segment can be loaded)
    def hdr(h):
        h = bv(h, 32)
        h1 = h + 1
        q = loadable(h)
        return And(pos(h1) == pos(h) + z3.ZeroExt(16, phentsize),
                   cnt(h1) == cnt(h) + z3.If(tb(q), bv(1, 32), bv(0, 32)),
                   Implies(q, And(eb(cnt(h)) == paddr(h), es(cnt(h)) == pfilesz(h), eo(cnt(h)) == poffset(h))),
                   Implies(q, ULE(Add(z64(paddr(h)), z64(pfilesz(h)), 64), 1 << 32, 64)))
    st.facts.append(Fact('hdr', hdr))
    # is some header bad?
    hasbad = fresh_bool('malformed')
    w = fresh(32, 'badHeader')
    st.assume(Implies(hasbad, And(ULT(w, num, 32), bad(w))))
    st.facts.append(Fact('hdr', lambda h: Implies(And(Not(hasbad), ULT(h, num, 32)), Not(bad(bv(h, 32))))))
    st.term('hdr', w)
    st.term('hist', w)
    st.term('hdr', bv(0, 32))
    N0 = mem.N0
    st0 = st.copy()

    def hook(ex, s, K):
        s.term('hdr', K)
    ex.header_hooks.append(hook)

    def forms(cut, loc, wd):
        if wd == 32:
            yield ('pos', lambda K: pos(bv(K, 32)))
            yield ('cnt', lambda K: cnt(bv(K, 32)))
            yield ('N', lambda K: Add(N0, cnt(bv(K, 32)), 32))
    ex.intforms.append(forms)
    new = lambda k, c: And(ULE(N0, k, 32), ULT(Sub(k, N0, 32), c, 32))

    def expect(c):
        seg = lambda k: Sub(k, N0, 32)
        o = st0.stores
        return {
            'm.base': o['m.base'].layer(lambda k: new(k, c), lambda k: eb(bv(seg(k), 32))),
            'm.size': o['m.size'].layer(lambda k: new(k, c), lambda k: es(bv(seg(k), 32))),
            'm.ro': o['m.ro'].layer(lambda k: new(k, c), lambda k: 1),
            'm.alias': o['m.alias'].layer(lambda k: new(k, c), lambda k: 0),
            'm.redirect': o['m.redirect'].layer(lambda k: new(k, c), lambda k: 0),
            'm.byte': o['m.byte'].layer(lambda k, j: new(k, c), lambda k, j: If(ULT(j, z64(es(bv(seg(k), 32))), 64), f.read(Add(z64(eo(bv(seg(k), 32))), j, 64)), 0, 8)),
        }

    def summ(cut, loc):
        if loc[0] == 'st' and loc[1].startswith('m.'):
            return [Def('segments', lambda K: expect(cnt(bv(K, 32)))[loc[1]])]
        return ()
    ex.summarizers = [summ]
    ex.cands = [lambda ex, s, K: And(ULE(cnt(bv(K, 32)), K, 32), ULE(K, num, 32))]
    what = 'ElfLoad'
    kinds = {}
    for s in r.call(st, 'ElfLoad_FromMemory', [mem.p, Ptr(blob, 0), n]):
        kinds.setdefault(s.done[0], []).append(s)
        chk = lambda c, nm, props=P: r.check(s, c, what + ': ' + nm, props)
        chk(chain_ok(r, s), 'handler chain', ('C13',))
        total = cnt(num)
        s.term('hdr', num)
        if s.done[0] == 'throw':
            if s.ghost['m.fail']:
                chk(thrown_is(r, s, code0, 'outOfMemory'), 'a failure of the memory is passed on')
                continue
            chk(Or(badhdr, hasbad, Eq(total, 0, 32)), 'only a malformed or empty file is rejected', ('C08',))
            chk(thrown_is(r, s, code0, 'elfFormat'), 'the error is a format error', ('C08',))
            continue
        chk(not s.ghost['m.fail'], 'no failure is hidden', ('C13', 'C08'))
        chk(Not(badhdr), 'a file with a malformed header is rejected', ('C08',))
        chk(Not(hasbad), 'a file with a header or segment outside of it is rejected', ('C08',))
        chk(Not(Eq(total, 0, 32)), 'a file without a loadable segment is rejected', ('C08',))
        chk(Eq(s.ghost['m.N'], Add(N0, total, 32), 32), 'one region per loadable segment', ('C08',))
        k, j = fresh(32, 'any'), fresh(64, 'any')
        want = expect(total)
        for g, e in want.items():
            ks = (k,) if len(e.ks) == 1 else (k, j)
            c = Eq(s.stores[g].read(*ks), e.read(*ks), e.w)
            if g == 'm.byte':
                c = Implies(ULT(j, z64(s.stores['m.size'].read(k)), 64), c)
            elif g in ('m.redirect', 'm.alias'):
                c = True if g == 'm.redirect' else c
            chk(c, {'m.base': 'each region starts at the physical address of its segment', 'm.size': 'each region has the file size of its segment', 'm.ro': 'each region is read-only',
                    'm.alias': 'no region is an alias', 'm.redirect': 'no alias', 'm.byte': 'each region holds exactly the bytes of its segment'}[g] + ', the others are unchanged', ('C08',))
        chk(chain_ok(r, s), 'handlers', ('C13',))
    r.cover(kinds.get('ret', []), what + ' completes', lambda s: ULT(1, cnt(num), 32))
    r.cover(kinds.get('throw', []), what + ' rejects', lambda s: hasbad)


ASSUMPTIONS = [
    'ELF blobs of at most 2^31 bytes',
    'the simulated memory is used through the contracts of CreateRegion, LoadFromFlashImage and MakeRegionReadOnly (vf/absmem.py), proved for the real code in the memsim units',
    'content properties: loadable segments do not overlap, do not wrap past 2^32 and do not touch older regions',
]

UNITS = [('ElfLoad', P, load)]
