"""C10, C11 (and the parts of C13): CrashCatcherDump.c.

The decoder is run on an arbitrary byte stream: the file itself for a binary dump; for a hex dump the bytes that its digit pairs
spell, through the contract of the pair reader, which is proved separately over the characters of the file.

rpos(h) is the stream position of region h, defined by recursion over the region headers; `wf` says that the stream is the
header followed by whole regions, `ov` that it is that followed by the overflow sentinel."""
from ..target import *
from ..exc import *
from ..absmem import AbsMem
from ..fileio import File, Stream
from ..codes import codes, regs
from .memsim import Def
from .elf import thrown_is, z64

P = ('C10', 'C11', 'C13')


def dump(hex):
    fn = 'CrashCatcherDump_ReadHex' if hex else 'CrashCatcherDump_ReadBinary'
    PM = ('C11',) if hex else ('C10',)
    PA = PM + ('C13',)

    def go():
        smt.INT_FIRST[0] = True
        r = Run('dump/' + fn, ['CrashCatcherDump', 'try_catch', 'common'], {}, PA)
        ex = r.ex
        ex.merge_min, ex.merge_fill, ex.merge_calls = 2, True, True
        r.internals('CrashCatcherDump')
        st = r.state()
        code0 = setup(r, st)
        L, RG = codes(), regs()
        r.oomcode = L['outOfMemory']
        mem = AbsMem(r, st)
        fl = File(r, st)
        name = Obj('filename', 'ext', 2)
        st.mem[name] = Content({0: (1, ord('f')), 1: (1, 0)}, None)
        ctx = Obj('registers', 'ext', RG['size'])
        r0 = uf_store('register_byte', 8, 64)
        st.mem[ctx] = Content({}, r0)
        hasbad, badat = False, None
        if hex:
            # the bytes spelt by the digit pairs; `badat` is the first pair with another character
            sf = z3.Function('pairByte', z3.BitVecSort(64), z3.BitVecSort(8))
            sb = lambda i: sf(bv(i, 64))
            sl = z3.BitVec('pairs', 64)
            st.assume(ULE(sl, 1 << 30, 64))
            hasbad = fresh_bool('hasBadPair')
            badat = z3.BitVec('badPair', 64)
            st.assume(Implies(hasbad, ULT(badat, sl, 64)))
            sm = Stream(ex, st, 'pairs', sb, sl, 's.pos')
            GH = 's.pos'

            def hexread(ex, st, a, ins):
                o, buf, n = a
                fp = None
                c = ex.content(st, o.b)
                files = [v for (w, v) in c.cells.values() if isinstance(v, Ptr) and v.b is fl.obj]
                fl.mine(ex, st, files[0] if files else NULL)
                pos = st.ghost[GH]
                out = []
                ex.oblige(st, And(ULT(n, 1 << 31, 64), Implies(hasbad, ULE(pos, badat, 64))), 'the pair reader is called within its contract')
                hit = And(hasbad, ULE(pos, badat, 64), ULT(Sub(badat, pos, 64), n, 64))
                d = ex.decide(st, hit)
                if d is not False:
                    s = st.copy() if d is not True else st
                    if d is not True:
                        s.assume(d)
                    junk = uf_store(fresh_name('partial'), 8, 64)
                    ex.write_range(s, buf, n, lambda i: junk.read(i), 'store')
                    s.ghost['badpair'] = True
                    out.append(ex.throw(s, L['fileFormat']))
                if d is not True:
                    if d is not False:
                        st.assume(Not(d))
                    for (s, v) in sm.read(ex, st, buf, n):
                        out.append((s, TR(v, 64, 32)))
                return out
            if 'hexRead' not in r.mods['CrashCatcherDump'].funcs:
                raise Unsupported('no pair reader')
            ex.contracts['hexRead'] = hexread
        else:
            sb, sl, GH = fl.byte, fl.len, 'f.pos'
        st.ghost['badpair'] = False
        word = lambda p: concat_bytes([sb(Add(p, i, 64)) for i in range(4)])
        # ---- the header
        sig = [sb(i) for i in range(4)]
        isv = lambda v: And(Eq(sig[0], 0x63, 8), Eq(sig[1], 0x43, 8), Eq(sig[2], v, 8), Eq(sig[3], 0, 8))
        v2 = isv(2)
        flags = word(4)
        fp = Not(Eq(flags & RG['FP_FLAG'], 0, 32))
        nint = If(v2, (RG['nR'] - 2) * 4, RG['nR'] * 4, 64)
        psrat = Add(8, nint, 64)
        fpat = Add(psrat, 4, 64)
        hdr = Add(fpat, If(fp, 4 * RG['nFPR'], 0, 64), 64)
        badhdr = Or(Not(Or(isv(2), isv(3))), ULT(sl, 4, 64), ULT(sl, hdr, 64))
        # ---- the regions
        rp = z3.Function('rpos', z3.BitVecSort(32), z3.BitVecSort(64))
        rpos = lambda h: rp(bv(h, 32))
        rs = lambda h: word(rpos(h))
        rn = lambda h: Sub(word(Add(rpos(h), 4, 64)), rs(h), 32)
        st.assume(S(rpos(0) == bv(hdr, 64)))
        fits = lambda h: And(ULE(Add(rpos(h), 8, 64), sl, 64), ULE(Add(Add(rpos(h), 8, 64), z64(rn(h)), 64), sl, 64))
        st.facts.append(Fact('hdr', lambda h: And(rpos(Add(h, 1, 32)) == bv(Add(Add(rpos(h), 8, 64), z64(rn(h)), 64), 64),
                                                  # scope: a region does not reach past the end of the address space
                                                  ULE(Add(z64(rs(h)), z64(rn(h)), 64), 1 << 32, 64))))
        wf, ov = fresh_bool('wellFormed'), fresh_bool('endsWithSentinel')
        n, n2 = fresh(32, 'regionCount'), fresh(32, 'regionCount2')
        st.assume(Implies(wf, And(Eq(rpos(n), sl, 64), ULE(n, 1 << 28, 32), Not(badhdr))))
        st.assume(Implies(ov, And(Eq(Add(rpos(n2), 4, 64), sl, 64), Eq(word(rpos(n2)), RG['SENTINEL'], 32), ULE(n2, 1 << 28, 32), Not(badhdr))))
        st.facts.append(Fact('hdr', lambda h: And(Implies(And(wf, ULT(h, n, 32)), fits(h)), Implies(And(ov, ULT(h, n2, 32)), fits(h)))))
        for t in (0, n, n2):
            st.term('hdr', bv(t, 32))
        N0 = mem.N0
        st0 = st.copy()
        ex.header_hooks.append(lambda ex, s, K: s.term('hdr', K))
        ex.intforms.append(lambda cut, loc, w: [('rpos', lambda K: rpos(K))] if w == 64 else [])
        new = lambda k, c: And(ULE(N0, k, 32), ULT(Sub(k, N0, 32), c, 32))
        seg = lambda k: Sub(k, N0, 32)

        def expect(c):
            o = st0.stores
            e = {'m.base': o['m.base'].layer(lambda k: new(k, c), lambda k: rs(seg(k))),
                 'm.size': o['m.size'].layer(lambda k: new(k, c), lambda k: rn(seg(k))),
                 'm.byte': o['m.byte'].layer(lambda k, j: new(k, c), lambda k, j: If(ULT(j, z64(rn(seg(k))), 64), sb(Add(Add(rpos(seg(k)), 8, 64), j, 64)), 0, 8))}
            for f in ('ro', 'alias', 'redirect'):
                e['m.' + f] = o['m.' + f].layer(lambda k: new(k, c), lambda k: 0)
            return e

        def summ(cut, loc):
            if loc[0] != 'st' or not loc[1].startswith('m.'):
                return ()
            if not getattr(ex, 'inbody', 0):
                return [Def('regions', lambda K: expect(K)[loc[1]])]
            out = []
            if loc[1] == 'm.byte':
                base = cut.st.stores['m.byte']
                kk = Sub(cut.st.ghost['m.N'], 1, 32)
                p0 = cut.st.ghost[GH]
                out.append(Def('inner', lambda K: base.layer(lambda k, o: And(Eq(k, kk, 32), ULT(o, ZX(bv(K, 32), 32, 64), 64)), lambda k, o: sb(Add(p0, o, 64)))))
            return out
        ex.summarizers = [summ]
        ex.key_hooks.append(lambda ex, s, loc, ks, K: s.term('hdr', S(seg(ks[0]))) if ks[0].size() == 32 else None)
        pos = lambda s: s.ghost[GH]
        region_contract(r, mem, fl, sb, sl, GH, hasbad, badat, hex, code0, PM)
        ex.cands = [
            lambda ex, s, K: And(ULE(pos(s), sl, 64), ULE(Mul(ZX(bv(K, 32), 32, 64), 8, 64), pos(s), 64)),
            lambda ex, s, K: ULE(pos(s), sl, 64),
            lambda ex, s, K: And(Implies(wf, ULE(K, n, 32)), Implies(ov, ULE(K, n2, 32))),
            lambda ex, s, K: Implies(hasbad, ULE(pos(s), badat, 64)) if hex else None,
        ]
        what = fn
        kinds = {}
        for s in r.call(st, fn, [mem.p, Ptr(ctx, 0), Ptr(name, 0)]):
            kinds.setdefault(s.done[0], []).append(s)
            chk = lambda c, nm, props=PM: r.check(s, c, what + ': ' + nm, props)
            chk(chain_ok(r, s), 'handler chain', ('C13',))
            chk(fl.closed(s), 'the file is closed', PA)
            chk(not [o for o in s.mem if o.kind == 'heap'], 'nothing is left allocated', ('C13',))
            K = Sub(s.ghost['m.N'], N0, 32)
            s.term('hdr', K)
            s.term('hdr', Sub(K, 1, 32))
            if s.done[0] == 'throw':
                if 'open' in s.ghost['f.fail']:
                    chk(thrown_is(r, s, code0, 'file'), 'a file that cannot be opened is a file error', PA)
                    chk(Eq(K, 0, 32), 'nothing is created from a file that cannot be opened', PA)
                    continue
                mf, bp = s.ghost['m.fail'], s.ghost['badpair']
                chk(Implies(mf, thrown_is(r, s, code0, 'outOfMemory')), 'only running out of memory fails besides malformed files', PA)
                chk(Implies(bp, And(hasbad, thrown_is(r, s, code0, 'fileFormat'))), 'a pair with another character is a format error')
                if mf is True or bp is True:
                    continue
                try:
                    s.assume(Not(Or(mf, bp)))
                except PathEnd:
                    continue
                chk(Not(wf), 'only a malformed dump is rejected')
                isov = And(Not(badhdr), Eq(Add(rpos(K), 4, 64), sl, 64), Eq(word(rpos(K)), RG['SENTINEL'], 32))
                chk(Or(thrown_is(r, s, code0, 'fileFormat'), And(thrown_is(r, s, code0, 'stackOverflow'), isov)), 'a stack overflow is reported only for the sentinel, else a format error')
                chk(Implies(ov, thrown_is(r, s, code0, 'stackOverflow')), 'the sentinel is reported as a stack overflow')
                continue
            chk(And(not s.ghost['f.fail'], Not(s.ghost['m.fail']), Not(s.ghost['badpair'])), 'no failure is hidden', PA)
            chk(Not(badhdr), 'a foreign or truncated header is rejected')
            chk(Not(ov), 'a dump with the sentinel is rejected')
            if hex:
                chk(Not(hasbad), 'a dump with another character is rejected')
            chk(Eq(rpos(K), sl, 64), 'the regions take the whole rest of the dump')
            k, j = fresh(32, 'any'), fresh(64, 'any')
            s.term('hdr', S(seg(k)))
            nm = {'m.base': 'each region starts at its recorded address', 'm.size': 'each region has its recorded size', 'm.ro': 'each region is writable',
                  'm.alias': 'no region is an alias', 'm.byte': 'each region holds exactly its recorded bytes'}
            for g, e in expect(K).items():
                if g not in nm:
                    continue
                ks = (k,) if len(e.ks) == 1 else (k, j)
                c = Eq(s.stores[g].read(*ks), e.read(*ks), e.w)
                if g == 'm.byte':
                    c = Implies(ULT(j, z64(s.stores['m.size'].read(k)), 64), c)
                chk(c, nm[g] + ', the others are unchanged')
            c = ex.content(s, ctx)
            rd = lambda off: ex.rd(s, ctx, c, off, 4, False)
            chk(Eq(rd(RG['flags']), flags, 32), 'the flags')
            for i in range(RG['nR']):
                want = word(8 + 4 * i)
                if i in (RG['MSP'], RG['PSP']):
                    want = If(v2, RG['DEFAULT_SP'], want, 32)
                chk(Eq(rd(RG['R'] + 4 * i), want, 32), 'register %d' % i)
            chk(Eq(rd(RG['exceptionPSR']), word(psrat), 32), 'the exception PSR')
            for i in range(RG['nFPR']):
                o = RG['FPR'] + 4 * i
                old = concat_bytes([r0.read(o + b) for b in range(4)])
                chk(Eq(rd(o), If(fp, word(Add(fpat, 4 * i, 64)), old, 32), 32), 'floating point register %d exactly when flagged' % i)
        r.cover(kinds.get('ret', []), what + ' completes', lambda s: And(ULT(Add(N0, 1, 32), s.ghost['m.N'], 32), v2, fp))
        r.cover(kinds.get('ret', []), what + ' completes with version 3', lambda s: And(Not(v2), Not(fp)))
        r.cover(kinds.get('throw', []), what + ' reports the sentinel', lambda s: ov)
    return go


def region_contract(r, mem, fl, sb, sl, GH, hasbad, badat, hex, code0, PM):
    """contract of the function that reads one region, verified against its body where it is called"""
    fn = 'createAndLoadMemoryRegion'
    ex = r.ex
    L = codes()
    if fn not in r.mods['CrashCatcherDump'].funcs:
        return

    def post(st, start, size):
        """[(condition, kind, effect)] of the call"""
        pos, N = st.ghost[GH], st.ghost['m.N']
        left = Sub(sl, pos, 64)
        n = z64(size)
        hit = And(hasbad, ULE(pos, badat, 64), ULT(Sub(badat, pos, 64), n, 64)) if hex else False
        return pos, N, left, n, hit

    def loaded(s, N, pos, start, size):
        put = {'base': start, 'size': size, 'ro': 0, 'alias': 0, 'redirect': 0}
        for f, v in put.items():
            s.stores['m.' + f] = s.stores['m.' + f].point((N,), v)
        s.stores['m.byte'] = s.stores['m.byte'].layer(lambda k, o: Eq(k, N, 32), lambda k, o: If(ULT(o, z64(size), 64), sb(Add(pos, o, 64)), 0, 8))
        s.ghost['m.N'] = Add(N, 1, 32)
        s.ghost[GH] = Add(pos, z64(size), 64)

    def h(ex, st, a, ins):
        o, rg = a
        c = ex.content(st, rg.b)
        start = ex.rd(st, rg.b, c, rg.off, 4, False)
        end = ex.rd(st, rg.b, c, rg.off + 4, 4, False)
        ex.need(st, start, 'region'), ex.need(st, end, 'region')
        size = Sub(end, start, 32)
        pos, N, left, n, hit = post(st, start, size)
        inspace = ULE(Add(z64(start), n, 64), 1 << 32, 64)
        if not ex.silent:
            st0 = st.copy()
            ex.inbody = getattr(ex, 'inbody', 0) + 1
            cands = ex.cands
            gpos = lambda s: s.ghost[GH]
            ex.cands = [lambda ex, s, K: ULE(gpos(s), sl, 64),
                        lambda ex, s, K: Implies(hasbad, Or(ULE(gpos(s), badat, 64), ULT(badat, pos, 64))) if hex else None]
            try:
                outs = r.body(st, fn, a)
            finally:
                ex.inbody -= 1
                ex.cands = cands
            for s in outs:
                chk = lambda c, nm: r.check(s, c, fn + ': ' + nm, PM)
                chk(chain_ok(r, s), 'handler chain')
                k, j = fresh(32, 'any'), fresh(64, 'any')
                for g in ('ro', 'alias', 'redirect', 'base', 'size'):
                    chk(Implies(Not(Eq(k, N, 32)), Eq(s.stores['m.' + g].read(k), st0.stores['m.' + g].read(k), 32)), 'no other region changes (%s)' % g)
                chk(same(r, st0, s, fl.obj), 'nothing else changes')
                if s.done[0] == 'throw':
                    mf, bp = s.ghost['m.fail'], s.ghost['badpair']
                    chk(Implies(mf, Or(Not(inspace), thrown_is(r, s, code0, 'outOfMemory'))), 'out of memory')
                    if mf is True:
                        continue
                    try:
                        s.assume(Not(mf))
                    except PathEnd:
                        continue
                    chk(thrown_is(r, s, code0, 'fileFormat'), 'the error is a format error')
                    chk(Implies(bp, hit), 'a pair is rejected only when it is bad')
                    chk(Implies(Not(bp), ULT(left, n, 64)), 'only a region cut short by the end of the file is rejected')
                    chk(Eq(s.ghost['m.N'], Add(N, 1, 32), 32), 'the region was created')
                    continue
                chk(And(ULE(n, left, 64), Not(hit), Not(s.ghost['m.fail'])), 'a region that is cut short is rejected')
                w = st0.copy()
                loaded(w, N, pos, start, size)
                for g in ('ro', 'alias', 'base', 'size'):
                    chk(Implies(inspace, Eq(s.stores['m.' + g].read(k), w.stores['m.' + g].read(k), 32)), 'the new region (%s)' % g)
                chk(Implies(And(inspace, Or(Not(Eq(k, N, 32)), ULT(j, n, 64))), Eq(s.stores['m.byte'].read(k, j), w.stores['m.byte'].read(k, j), 8)), 'the bytes of the region are the next bytes of the stream, others are unchanged')
                chk(And(Eq(s.ghost['m.N'], w.ghost['m.N'], 32), Eq(s.ghost[GH], w.ghost[GH], 64)), 'one region is added and exactly its bytes are consumed')
        # ---- the contract
        out = [mem.fail(ex, st, L['outOfMemory'])]
        st, t = mem.fork(ex, st, inspace)
        if t is not None:
            # a region that wraps around the end of the address space: anything may happen to the memory
            out.append(mem.fail(ex, t.copy()))
            loaded(t, N, pos, start, size)
            mem.havoc(ex, t, 'byte')
            out.append((t, None))
        if st is None:
            return out
        alts = [(And(ULE(n, left, 64), Not(hit)), 'ok'), (And(ULT(left, n, 64), Not(hit)), 'short')] + ([(hit, 'bad')] if hex else [])
        for cond, kind in alts:
            if not ex.feasible(st, cond):
                continue
            s = st.copy()
            s.assume(cond)
            if kind == 'ok':
                loaded(s, N, pos, start, size)
                s.term('node', N)
                out.append((s, None))
                continue
            loaded(s, N, pos, start, size)
            mem.havoc(ex, s, 'byte')
            s.ghost[GH] = fresh(64, 'pos')
            if kind == 'bad':
                s.ghost['badpair'] = True
            out.append(ex.throw(s, L['fileFormat']))
        return out
    ex.contracts[fn] = h


def same(r, s0, s, fobj):
    """objects outside of the simulated memory and the stack frames of the call are unchanged"""
    skip = {r.g('g_pExceptionHandlers'), r.g('g_exceptionCode'), r.g('g_exceptionMessage')}
    new = [o for o in s.mem if o not in s0.mem and o.kind == 'heap']
    if new:
        return False
    return unchanged(r, s0, s, skip | {o for o in s.mem if o not in s0.mem} | {o for o in s0.mem if o.kind == 'ext' and o in r.outer})


HEX = lambda c: Or(And(ULE(0x30, c, 8), ULE(c, 0x39, 8)), And(ULE(0x61, c, 8), ULE(c, 0x66, 8)), And(ULE(0x41, c, 8), ULE(c, 0x46, 8)))
VAL = lambda c: If(ULE(c, 0x39, 8), Sub(c, 0x30, 8), If(ULE(c, 0x46, 8), Sub(c, 0x37, 8), Sub(c, 0x57, 8), 8), 8)


def next_line_end(st, fl):
    """next(p): position of the first character at or after p that is no line end, or the length of the file"""
    f = z3.Function('next', z3.BitVecSort(64), z3.BitVecSort(64))
    nx = lambda p: f(bv(p, 64))
    nl = lambda p: Or(Eq(fl.byte(p), 10, 8), Eq(fl.byte(p), 13, 8))
    st.facts.append(Fact('pos', lambda p: And(nx(p) == If(And(ULT(p, fl.len, 64), nl(p)), nx(Add(p, 1, 64)), p, 64),
                                              Implies(ULE(p, fl.len, 64), And(ULE(p, nx(p), 64), ULE(nx(p), fl.len, 64))))))
    return nx


class Pairs:
    """the bytes that the digit pairs of a text file spell.
    next(p): position of the first character at or after p that is no line end (or the length of the file);
    start(i): position behind the i-th pair; `n`: number of pairs; `badat`: the first pair with another character"""
    def __init__(self, st, fl):
        U = z3.BitVecSort(64)
        self.next = next_line_end(st, fl)
        sf, pb = z3.Function('behindPair', U, U), z3.Function('pairByte', U, z3.BitVecSort(8))
        self.start = lambda i: sf(bv(i, 64))
        self.byte = lambda i: pb(bv(i, 64))
        self.n = z3.BitVec('pairs', 64)
        self.hasbad = fresh_bool('hasBadPair')
        self.badat = z3.BitVec('badPair', 64)
        st.assume(ULE(self.n, 1 << 30, 64))
        st.assume(Implies(self.hasbad, ULT(self.badat, self.n, 64)))
        st.assume(S(self.start(0) == bv(0, 64)))

        def pair(i):
            a = self.next(self.start(i))
            b = self.next(Add(a, 1, 64))
            whole = And(ULT(a, fl.len, 64), ULT(b, fl.len, 64))
            ca, cb = fl.byte(a), fl.byte(b)
            good = And(HEX(ca), HEX(cb))
            return And(Implies(whole, self.start(Add(i, 1, 64)) == Add(b, 1, 64)),
                       Implies(ULT(i, self.n, 64), whole),
                       Implies(Eq(i, self.n, 64), Not(whole)),
                       Implies(And(whole, good), self.byte(i) == Add(Mul(VAL(ca), 16, 8), VAL(cb), 8)),
                       Implies(And(ULT(i, self.n, 64), Or(Not(self.hasbad), ULT(i, self.badat, 64))), good),
                       Implies(And(self.hasbad, Eq(i, self.badat, 64)), Not(good)))
        st.facts.append(Fact('pair', pair))

    def terms(self, st, i):
        st.term('pair', bv(i, 64))
        for p in (self.start(i), Add(self.next(self.start(i)), 1, 64)):
            st.term('pos', bv(p, 64))


class Captured(Exception):
    pass


def reader_context(target):
    """the context in which CrashCatcherDump_ReadHex calls its pair reader: -> run, state, object, file, code0"""
    smt.INT_FIRST[0] = True
    PM = ('C11',)
    r = Run(target, ['CrashCatcherDump', 'try_catch', 'common'], {}, PM)
    ex = r.ex
    r.internals('CrashCatcherDump')
    st = r.state()
    code0 = setup(r, st)
    L, RG = codes(), regs()
    r.oomcode = L['outOfMemory']
    mem = AbsMem(r, st)
    fl = File(r, st)
    name = Obj('filename', 'ext', 2)
    st.mem[name] = Content({0: (1, ord('f')), 1: (1, 0)}, None)
    ctx = Obj('registers', 'ext', RG['size'])
    st.mem[ctx] = Content({}, uf_store('register_byte', 8, 64))
    if 'hexRead' not in r.mods['CrashCatcherDump'].funcs:
        raise Unsupported('no pair reader')
    got = []

    def capture(ex, st, a, ins):
        got.append((st.copy(), a))
        raise Captured()
    ex.contracts['hexRead'] = capture
    try:
        r.call(st, 'CrashCatcherDump_ReadHex', [mem.p, Ptr(ctx, 0), Ptr(name, 0)])
    except Captured:
        pass
    if not got:
        raise Unsupported('the pair reader is not called')
    st, args = got[0]
    o = args[0].b
    c = ex.content(st, o)
    for off, (w, v) in list(c.cells.items()):
        if is_int(v):
            ex.wr(st, o, off, w, fresh(8 * w, 'field'))
    return r, st, args[0], fl, code0


NEXT = 'readNextCharacterSkippingNewLines'


def touched(r):
    return {r.g('g_pExceptionHandlers'), r.g('g_exceptionCode'), r.g('g_exceptionMessage')}


def watch_reads(ex):
    fread = ex.libc['fread']

    def read(ex, st, a, ins):
        p = st.ghost['f.pos']
        st.term('pos', bv(p, 64))
        st.term('pos', bv(Add(p, 1, 64), 64))
        return fread(ex, st, a, ins)
    ex.libc['fread'] = read
    ex.header_hooks.append(lambda ex, s, K: s.term('pos', bv(s.ghost['f.pos'], 64)))
    ex.cands.append(lambda ex, s, K: ULE(s.ghost['f.pos'], ex.filelen, 64))

    def makers(cut):
        p = cut.st.ghost['f.pos']
        return [lambda ex, s, K: Eq(ex.nextpos(s.ghost['f.pos']), ex.nextpos(p), 64)]
    ex.cand_makers = [makers]


def nextchar():
    """the next character that is no line end"""
    PM = ('C11',)
    r, st, op, fl, code0 = reader_context('dump/nextCharacter')
    ex = r.ex
    if NEXT not in r.mods['CrashCatcherDump'].funcs:
        return
    nx = next_line_end(st, fl)
    ex.nextpos, ex.filelen = nx, fl.len
    pos0 = z3.BitVec('position0', 64)
    st.assume(ULE(pos0, fl.len, 64))
    st.ghost['f.pos'] = pos0
    st.term('pos', pos0)
    st.term('pos', fl.len)
    d = Obj('digit', 'ext', 1)
    d0 = fresh(8, 'digit')
    st.mem[d] = Content({0: (1, d0)}, None)
    watch_reads(ex)
    st0 = st.copy()
    ex.contracts[NEXT] = None
    q = nx(pos0)
    kinds = {}
    for s in r.body(st, NEXT, [op, Ptr(d, 0)]):
        chk = lambda c, nm: r.check(s, c, 'next character: ' + nm, PM)
        chk(s.done[0] == 'ret', 'no error')
        if s.done[0] != 'ret':
            continue
        kinds.setdefault(0, []).append(s)
        chk(chain_ok(r, s), 'handler chain')
        chk(unchanged(r, st0, s, touched(r) | {d}), 'nothing else changes')
        more = ULT(q, fl.len, 64)
        chk(Eq(s.done[1], If(more, 1, 0, 32), 32), 'it reports whether there is one')
        v = ex.rd(s, d, ex.content(s, d), 0, 1, False)
        chk(Implies(more, Eq(v, fl.byte(q), 8)), 'it is the first one that is no line end')
        chk(Eq(s.ghost['f.pos'], If(more, Add(q, 1, 64), fl.len, 64), 64), 'the file is left behind it')
    r.cover(kinds.get(0, []), 'next character', lambda s: ULT(Add(pos0, 3, 64), q, 64))


def next_contract(r, fl, nx):
    def h(ex, st, a, ins):
        o, p = a
        c = ex.content(st, o.b)
        files = [v for (w, v) in c.cells.values() if isinstance(v, Ptr) and v.b is fl.obj]
        fl.mine(ex, st, files[0] if files else NULL)
        pos = st.ghost['f.pos']
        st.term('pos', bv(pos, 64))
        ex.oblige(st, ULE(pos, fl.len, 64), 'the position is inside of the file')
        q = nx(pos)
        st, t = AbsMem.fork(None, ex, st, ULT(q, fl.len, 64))
        out = []
        if st is not None:
            ex.write_range(st, p, 1, lambda i: fl.byte(q), 'store')
            st.ghost['f.pos'] = Add(q, 1, 64)
            st.term('pos', bv(Add(q, 1, 64), 64))
            out.append((st, 1))
        if t is not None:
            t.ghost['f.pos'] = fl.len
            out.append((t, 0))
        return out
    r.ex.contracts[NEXT] = h


def hexread():
    PM = ('C11',)
    r, st, op, fl, code0 = reader_context('dump/hexRead')
    ex = r.ex
    args = [op]
    pr = Pairs(st, fl)
    i0 = z3.BitVec('pair0', 64)
    n = z3.BitVec('wanted', 64)
    st.assume(And(ULE(i0, pr.n, 64), ULT(n, 1 << 31, 64)))
    pos0 = z3.BitVec('position0', 64)
    st.assume(Or(Eq(pos0, pr.start(i0), 64), And(Eq(i0, pr.n, 64), Eq(pos0, fl.len, 64))))
    st.assume(ULE(pos0, fl.len, 64))
    st.assume(Implies(pr.hasbad, ULE(i0, pr.badat, 64)))
    st.ghost['f.pos'] = pos0
    buf = Obj('buffer', 'ext', n)
    b0 = uf_store('buffer_byte', 8, 64)
    st.mem[buf] = Content({}, b0)
    pr.terms(st, i0)
    st.term('pos', fl.len)
    st.term('pos', pos0)
    st.term('pair', pr.n)
    ex.nextpos, ex.filelen = pr.next, fl.len
    if NEXT in r.mods['CrashCatcherDump'].funcs:
        next_contract(r, fl, pr.next)
    else:
        watch_reads(ex)
    at = lambda K: Add(i0, ZX(bv(K, 32), 32, 64), 64)
    st0 = st.copy()

    def hdr(ex, s, K):
        pr.terms(s, at(K))
        s.term('pair', at(Add(K, 1, 32)))
        s.term('pos', bv(s.ghost['f.pos'], 64))
    ex.header_hooks.append(hdr)

    def forms(cut, loc, w):
        return [('pairs', lambda K: If(Eq(K, 0, 32), pos0, pr.start(at(K)), 64))] if loc == ('gh', 'f.pos') else []
    ex.intforms.append(forms)

    ex.cands += [lambda ex, s, K: ULE(s.ghost['f.pos'], fl.len, 64),
                lambda ex, s, K: ULE(at(K), pr.n, 64),
                lambda ex, s, K: ULE(ZX(bv(K, 32), 32, 64), n, 64),
                lambda ex, s, K: Implies(pr.hasbad, ULE(at(K), pr.badat, 64))]

    def summ(cut, loc):
        if loc == ('bg', buf):
            return [Def('bytes', lambda K: b0.layer(lambda j: ULT(j, ZX(bv(K, 32), 32, 64), 64), lambda j: pr.byte(Add(i0, j, 64))))]
        return ()
    ex.summarizers = [summ]
    left = Sub(pr.n, i0, 64)
    hit = And(pr.hasbad, ULT(Sub(pr.badat, i0, 64), n, 64))
    kinds = {}
    for s in r.body(st, 'hexRead', [args[0], Ptr(buf, 0), n]):
        kinds.setdefault(s.done[0], []).append(s)
        chk = lambda c, nm: r.check(s, c, 'pair reader: ' + nm, PM)
        chk(chain_ok(r, s), 'handler chain')
        chk(unchanged(r, st0, s, {r.g('g_pExceptionHandlers'), r.g('g_exceptionCode'), r.g('g_exceptionMessage'), buf}), 'nothing else changes')
        if s.done[0] == 'throw':
            chk(And(hit, thrown_is(r, s, code0, 'fileFormat')), 'only a pair with another character among the wanted ones is an error')
            continue
        got = SX(s.done[1], 32, 64) if not isinstance(s.done[1], int) else sx(s.done[1], 32)
        want = If(ULE(n, left, 64), n, left, 64)
        chk(Not(hit), 'a pair with another character is an error')
        chk(Eq(bv(got, 64), want, 64), 'it delivers the wanted number of bytes, or as many as there are')
        j = fresh(64, 'any')
        s.term('pair', Add(i0, j, 64))
        c = ex.content(s, buf)
        v = ex.rd(s, buf, c, j, 1, False)
        chk(Implies(ULT(j, want, 64), Eq(v, pr.byte(Add(i0, j, 64)), 8)), 'the bytes are those that the pairs spell')
        p = s.ghost['f.pos']
        chk(Or(Eq(p, pr.start(Add(i0, want, 64)), 64), And(Eq(Add(i0, want, 64), pr.n, 64), Eq(p, fl.len, 64)), And(Eq(want, 0, 64), Eq(p, pos0, 64))), 'the file is left behind the last delivered pair')
    r.cover(kinds.get('ret', []), 'pair reader delivers bytes', lambda s: ULT(1, n, 64))
    r.cover(kinds.get('throw', []), 'pair reader rejects')


ASSUMPTIONS = [
    'the file is a regular file of at most 2^31 bytes: fread returns what is left of it (read errors before the end count as the end of the file)',
    'a hex dump has at most 2^30 digit pairs; the pair reader is used through its contract, proved in the units nextCharacter and hexRead',
    'the simulated memory is used through the contracts of CreateRegion and the IMemory functions (vf/absmem.py), proved for the real code in C01..C06 (memsim units)',
    'content properties: recorded blocks start no later than they end and do not overlap each other or older regions',
]

UNITS = [('nextCharacter', ('C11',), nextchar), ('hexRead', ('C11',), hexread), ('ReadBinary', ('C10', 'C13'), dump(False)), ('ReadHex', ('C11', 'C13'), dump(True))]
