"""C18 (and the parts of C13): CrashDebugCommandLine.c and GetFileSize.

The arguments are an arbitrary array of arbitrary strings.  The expected result is given by recursion over the options:
at(h) is the index of the argument that holds option h, elf(h)/bin(h)/dump(h) the argument with the last such name among the
first h options, base(h) the value of the last base address, al(h) the number of aliases among them."""
from ..target import *
from ..exc import *
from ..absmem import AbsMem
from ..fams import StrFam, ArrFam
from ..codes import codes, regs, cmdline_layout
from .memsim import Def
from .elf import thrown_is, z64

P = ('C18', 'C13')
NONE = (1 << 32) - 1
MAXARGS = 1 << 20


class Args(StrFam):
    """the argument strings; the index NONE stands for the null pointer"""
    def nonnull(self, ex, st, i):
        return Not(Eq(i, NONE, 32))

    def alive(self, ex, st, i):
        return Not(Eq(i, NONE, 32))


class Files:
    """the files named by the arguments: contents and length are functions of the name; several may be opened one after another"""
    def __init__(self, r, st, strs):
        ex = self.ex = r.ex
        self.r, self.strs = r, strs
        self.fb = z3.Function('fileByte', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(8))
        self.fl = z3.Function('fileLength', z3.BitVecSort(32), z3.BitVecSort(64))
        self.byte = lambda k, i: self.fb(bv(k, 32), bv(i, 64))
        self.len = lambda k: self.fl(bv(k, 32))
        self.objs = [Obj('file%d' % i, 'ext', 8) for i in range(3)]
        for o in self.objs:
            st.mem[o] = Content({}, uf_store(o.name + '_opaque', 8, 64))
        st.ghost['f.files'] = ()          # (state, name index) of every opened file; state 1 = open
        st.ghost['f.fail'] = ()
        st.ghost['f.name'] = bv(0, 32)
        for i in range(3):
            st.ghost['f.pos%d' % i] = bv(0, 64)
            ex.ghostw['f.pos%d' % i] = 64
        for n in ('fopen', 'fclose', 'fread', 'fseek', 'ftell'):
            ex.libc[n] = getattr(self, n)
            r.gset(st, 'hook_' + n, ex.func_ptr(n), 8)

    def idx(self, ex, st, p):
        for i, o in enumerate(self.objs):
            if isinstance(p, Ptr) and p.b is o and p.off == 0:
                ok = i < len(st.ghost['f.files']) and st.ghost['f.files'][i][0] == 1
                ex.oblige(st, ok, 'the file is open')
                return i
        ex.oblige(st, False, 'the stream is an open file')

    def failing(self, st, what, i):
        s2 = st.copy()
        s2.ghost['f.fail'] = s2.ghost['f.fail'] + ((what, i),)
        return s2

    def fopen(self, ex, st, a, ins):
        n = a[0]
        if not (isinstance(n, Ptr) and n.b is self.strs and n.off == 0):
            ex.oblige(st, False, 'the file name is an argument')
        ex.oblige(st, Not(Eq(n.i, NONE, 32)), 'the file name is an argument')
        i = len(st.ghost['f.files'])
        if i >= len(self.objs):
            raise Unsupported('more files are opened')
        s2 = self.failing(st, 'open', i)
        s2.ghost['f.files'] = s2.ghost['f.files'] + ((0, n.i),)
        st.ghost['f.files'] = st.ghost['f.files'] + ((1, n.i),)
        st.ghost['f.name'] = bv(n.i, 32)
        st.assume(ULE(self.len(n.i), 1 << 31, 64))
        return [(s2, NULL), (st, Ptr(self.objs[i], 0))]

    def fclose(self, ex, st, a, ins):
        i = self.idx(ex, st, a[0])
        f = list(st.ghost['f.files'])
        f[i] = (2, None)
        st.ghost['f.files'] = tuple(f)
        return [(st, 0)]

    def fread(self, ex, st, a, ins):
        buf, sz, n, fp = a
        i = self.idx(ex, st, fp)
        if not (isinstance(sz, int) and sz == 1):
            raise Unsupported('fread with items of several bytes')
        k = st.ghost['f.files'][i][1]
        pos = st.ghost['f.pos%d' % i]
        left = Sub(self.len(k), pos, 64)
        out = []
        if not isinstance(n, int):
            s = self.failing(st, 'read', i)
            got = fresh(64, 'got')
            s.assume(ULT(got, n, 64))
            junk = uf_store(fresh_name('partial'), 8, 64)
            ex.write_range(s, buf, n, lambda j: junk.read(j), 'store')
            s.ghost['f.pos%d' % i] = fresh(64, 'pos')
            out.append((s, got))
        full = ULE(n, left, 64)
        d = ex.decide(st, full)
        if d is not True:
            s = st.copy() if d is not False else st
            if d is not False:
                s.assume(Not(d))
            old = ex.byte_reader(s, buf)
            ex.write_range(s, buf, n, lambda j: If(ULT(j, left, 64), self.byte(k, Add(pos, j, 64)), old(j), 8), 'store')
            s.ghost['f.pos%d' % i] = self.len(k)
            out.append((s, left))
        if d is not False:
            if d is not True:
                st.assume(d)
            ex.write_range(st, buf, n, lambda j: self.byte(k, Add(pos, j, 64)), 'store')
            st.ghost['f.pos%d' % i] = Add(pos, n, 64)
            out.append((st, n))
        return out

    def fseek(self, ex, st, a, ins):
        i = self.idx(ex, st, a[0])
        s2 = self.failing(st, 'seek', i)
        if not isinstance(a[2], int) or not isinstance(a[1], int):
            raise Unsupported('fseek with unknown arguments')
        off = sx(a[1], 64)
        g = 'f.pos%d' % i
        st.ghost[g] = {0: bv(off, 64), 1: Add(st.ghost[g], off, 64), 2: Add(self.len(st.ghost['f.files'][i][1]), off, 64)}[a[2]]
        return [(s2, mask(-1, 32)), (st, 0)]

    def ftell(self, ex, st, a, ins):
        i = self.idx(ex, st, a[0])
        s2 = self.failing(st, 'tell', i)
        return [(s2, mask(-1, 64)), (st, st.ghost['f.pos%d' % i])]

    def closed(self, s):
        return all(f[0] != 1 for f in s.ghost['f.files'])


def init():
    smt.INT_FIRST[0] = True
    r = Run('cmdline/CrashDebugCommandLine_Init', ['CrashDebugCommandLine', 'try_catch', 'common', 'MockDefaults'], {}, P)
    ex = r.ex
    ex.merge_min = 2
    ex.merge_calls = True
    st = r.state()
    code0 = setup(r, st)
    L, RG, CL = codes(), regs(), cmdline_layout()
    r.oomcode = L['outOfMemory']
    mem = AbsMem(r, st, empty=True)
    for h in ('malloc', 'free', 'fprintf'):
        r.gset(st, 'hook_' + h, ex.func_ptr(h), 8)
    ex.libc['fprintf'] = lambda ex, st, a, ins: [(st, fresh(32, 'printed'))]
    if 'stderr' in [n for m in r.mods.values() for n in m.globals]:
        r.gset(st, 'stderr', Ptr(Obj('stderr', 'ext', 8), 0), 8)
    # ---- the arguments
    argc = z3.BitVec('argc', 32)
    st.assume(ULE(argc, MAXARGS, 32))
    strs = Args('arg')
    strs.facts(st)
    argv = ArrFam('argv', strs, argc)
    fl = Files(r, st, strs)
    F32 = lambda n: (lambda f: (lambda h: f(bv(h, 32))))(z3.Function(n, z3.BitVecSort(32), z3.BitVecSort(32)))
    at, elf, bn, dump, base, al, opt = [F32(n) for n in ('at', 'elf', 'bin', 'dump', 'base', 'aliases', 'aliasOption')]
    numf = z3.Function('number', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(64))
    num = lambda a: TR(numf(bv(a, 32), bv(0, 64), bv(0, 32)), 64, 32)

    def low(c, ch):
        u = ord(ch.upper())
        return Or(Eq(c, ord(ch), 8), Eq(c, u, 8)) if u != ord(ch) else Eq(c, ord(ch), 8)
    is_ = lambda s, a: And(*[low(strs.ch(bv(a, 32), z3.BitVecVal(k, 64)), ch) for k, ch in enumerate(s)] + [Eq(strs.ch(bv(a, 32), z3.BitVecVal(len(s), 64)), 0, 8)])
    NAMES = (('--bin', 3), ('--elf', 2), ('--dump', 2), ('--alias', 4))
    kind = lambda n, h: is_(n, at(h))
    length = lambda h: If(kind('--bin', h), 3, If(kind('--elf', h), 2, If(kind('--dump', h), 2, 4, 32), 32), 32)
    known = lambda h: Or(*[kind(n, h) for n, l in NAMES])
    ok = lambda h: And(ULT(at(h), argc, 32), known(h), ULE(length(h), Sub(argc, at(h), 32), 32))
    st.assume(S(And(at(0) == 0, elf(0) == NONE, bn(0) == NONE, dump(0) == NONE, base(0) == 0, al(0) == 0)))

    def rec(h):
        n = Add(h, 1, 32)
        return And(at(n) == Add(at(h), length(h), 32),
                   elf(n) == If(kind('--elf', h), Add(at(h), 1, 32), elf(h), 32),
                   bn(n) == If(kind('--bin', h), Add(at(h), 1, 32), bn(h), 32),
                   dump(n) == If(kind('--dump', h), Add(at(h), 1, 32), dump(h), 32),
                   base(n) == If(kind('--bin', h), num(Add(at(h), 2, 32)), base(h), 32),
                   al(n) == If(kind('--alias', h), Add(al(h), 1, 32), al(h), 32),
                   Implies(kind('--alias', h), opt(al(h)) == h))
    st.facts.append(Fact('opt', rec))
    st.facts.append(Fact('opt', lambda h: ULE(al(h), h, 32)))       # follows from the recursion: at most one more per option
    wf = fresh_bool('wellFormed')
    n0 = z3.BitVec('options', 32)
    complete = lambda n: And(at(n) == argc, Or(Not(Eq(elf(n), NONE, 32)), Not(Eq(bn(n), NONE, 32))), Not(Eq(dump(n), NONE, 32)))
    st.assume(Implies(wf, And(ULE(n0, MAXARGS, 32), complete(n0))))
    st.facts.append(Fact('opt', lambda h: Implies(And(wf, ULT(h, n0, 32)), ok(h))))
    st.term('opt', bv(0, 32))
    st.term('opt', n0)
    # ---- contracts
    def strtoul(ex, st, a, ins):
        p, e, b = a
        if not (isinstance(e, Ptr) and e.b is NULLOBJ) or not (isinstance(p, Ptr) and p.b is strs):
            raise Unsupported('strtoul')
        ex.access(st, p, 1, 'load')
        return [(st, numf(bv(p.i, 32), bv(off64(p.off), 64), bv(b, 32)))]
    ex.libc['strtoul'] = ex.libc['__isoc23_strtoul'] = strtoul
    fold = ex.libc['strcasecmp']

    def casecmp(ex, st, a, ins):
        from ..libc import cstr
        c = cstr(ex, st, a[1])
        if c is None or not (isinstance(a[0], Ptr) and a[0].b is strs and a[0].off == 0):
            return fold(ex, st, a, ins)
        ex.access(st, a[0], 1, 'load')
        v = fresh(32, 'cmp')
        st.assume(Not(Eq(v, 0, 32)))
        return [(st, If(is_(c.decode(), a[0].i), 0, v, 32))]
    ex.libc['strcasecmp'] = casecmp
    st.ghost['live'] = 0            # the memory: 0 not made, 1 in use, 2 torn down
    st.ghost['pass'] = 0
    st.ghost['K1'] = st.ghost['K2'] = bv(0, 32)
    st.ghost['image'] = None
    st.ghost['dumped'] = None
    st.ghost['mcode'] = None        # code thrown by a callee
    st.ghost['n.alias'] = bv(0, 32)
    for f in ('base', 'size', 'redirect'):
        st.stores['alias.' + f] = const_store(0, 32, 'alias', (32,))

    def minit(ex, st, a, ins):
        ex.oblige(st, st.ghost['live'] == 0, 'the memory is made once')
        st.ghost['live'] = 1
        return [(st, mem.p)]

    def muninit(ex, st, a, ins):
        p = a[0]
        if isinstance(p, Ptr) and p.b is NULLOBJ and p.off == 0:
            return [(st, None)]
        ex.oblige(st, isinstance(p, Ptr) and p.b is mem.obj and p.off == 0 and st.ghost['live'] == 1, 'the memory is torn down once')
        st.ghost['live'] = 2
        return [(st, None)]

    def fails(ex, st):
        c = fresh(32, 'code')
        s2 = st.copy()
        s2.assume(c > 0)
        s2.ghost['mcode'] = c
        return ex.throw(s2, c)

    def mine(ex, st, p):
        ex.oblige(st, isinstance(p, Ptr) and p.b is mem.obj and p.off == 0 and st.ghost['live'] == 1, 'the memory is the one in use')

    def elfload(ex, st, a, ins):
        mine(ex, st, a[0])
        f = st.ghost['f.files']
        ex.oblige(st, st.ghost['image'] is None and st.ghost['dumped'] is None and len(f) >= 1 and Eq(st.ghost['m.N'], 0, 32) is True, 'one image is loaded first')
        k = st.ghost['f.name']
        n = a[2]
        ex.oblige(st, Eq(n, fl.len(k), 64), 'the whole image file is loaded')
        ex.access_range(st, a[1], n, 'load')
        rd = ex.byte_reader(st, a[1])
        j = fresh(64, 'any')
        ex.oblige(st, Implies(ULT(j, n, 64), Eq(rd(j), fl.byte(k, j), 8)), 'the loaded bytes are those of the image file')
        st.ghost['image'] = ('elf', k)
        out = [fails(ex, st)]
        mem.havoc(ex, st, 'byte', 'base', 'size', 'ro', 'alias')
        st.ghost['m.N'] = fresh(32, 'regions')
        st.assume(ULE(st.ghost['m.N'], 1 << 20, 32))
        return out + [(st, None)]

    after = {f: uf_store('after_' + f, st.stores['m.' + f].w, *st.stores['m.' + f].ks) for f in ('byte', 'base', 'size', 'ro', 'alias', 'redirect')}
    afterN = z3.BitVec('regionsAfter', 32)
    junk = uf_store('loadedRegisters', 8, 64)

    def loader(kindname):
        def h(ex, st, a, ins):
            mine(ex, st, a[0])
            c = a[1]
            ex.oblige(st, isinstance(c, Ptr) and c.b is cl and c.off == CL['context'], 'the registers go to the context')
            d = a[2]
            ex.oblige(st, isinstance(d, Ptr) and d.b is strs and d.off == 0, 'the dump is an argument')
            ex.oblige(st, st.ghost['dumped'] is None and fl.closed(st) and st.ghost['pass'] == 0, 'one dump is loaded')
            K = st.ghost['K1']
            k = d.i
            ex.oblige(st, Eq(k, dump(K), 32), 'the last dump name is used')
            # the image comes first
            im = st.ghost['image']
            if im is not None:
                ex.oblige(st, And(Not(Eq(elf(K), NONE, 32)), Eq(im[1], elf(K), 32)), 'the last ELF name is used')
            else:
                b = bn(K)
                ex.oblige(st, And(Eq(elf(K), NONE, 32), Not(Eq(b, NONE, 32)), Eq(st.ghost['m.N'], 1, 32)), 'the image is one region')
                g = lambda f: st.stores['m.' + f].read(0)
                j = fresh(64, 'any')
                # scope: an image that is not empty and fits into the address space
                fits = And(Not(Eq(fl.len(b), 0, 64)), ULE(Add(z64(base(K)), fl.len(b), 64), 1 << 32, 64))
                ex.oblige(st, And(Eq(g('base'), base(K), 32), Eq(g('size'), TR(fl.len(b), 64, 32), 32)), 'the image is at the last base address')
                ex.oblige(st, Implies(fits, And(Not(Eq(g('ro'), 0, 32)), Eq(g('alias'), 0, 32))), 'the image is read-only')
                ex.oblige(st, Implies(And(fits, ULT(j, fl.len(b), 64)), Eq(st.stores['m.byte'].read(0, j), fl.byte(b, j), 8)), 'the image holds the bytes of the last file')
            by = [If(ULT(i, fl.len(k), 64), fl.byte(k, i), 0, 8) for i in range(4)]
            isbin = And(Eq(by[0], 0x63, 8), Eq(by[1], 0x43, 8))
            ishex = And(*[Eq(by[i], ord('6343'[i]), 8) for i in range(4)])
            want = {'bin': isbin, 'hex': ishex, 'log': And(Not(isbin), Not(ishex))}[kindname]
            ex.oblige(st, want, 'the reader is chosen by the signature of the file')
            st.ghost['dumped'] = st.ghost['image'] = True
            st.ghost['f.name'] = bv(0, 32)
            for f, o in after.items():         # one set of symbols: a path loads one dump
                st.stores['m.' + f] = o
            st.ghost['m.N'] = afterN
            ex.write_range(st, c, RG['size'], lambda i: junk.read(i), 'store')
            return [fails(ex, st), (st, None)]
        return h

    def alias(ex, st, a, ins):
        mine(ex, st, a[0])
        ex.oblige(st, st.ghost['dumped'] is not None, 'aliases are created after image and dump')
        j = st.ghost['n.alias']
        out = [fails(ex, st)]
        for f, v in (('base', a[1]), ('redirect', a[2]), ('size', a[3])):
            st.stores['alias.' + f] = st.stores['alias.' + f].point((j,), v)
        st.ghost['n.alias'] = Add(j, 1, 32)
        return out + [(st, None)]
    c = ex.contracts
    # the failing operations of the abstract memory report what they threw
    c['MemorySim_Init'], c['MemorySim_Uninit'], c['MemorySim_CreateAlias'], c['ElfLoad_FromMemory'] = minit, muninit, alias, elfload
    c['GdbLogParse'], c['CrashCatcherDump_ReadBinary'], c['CrashCatcherDump_ReadHex'] = loader('log'), loader('bin'), loader('hex')

    def memfail(ex, st, code=None):
        s2 = st.copy()
        if code is None:
            code = fresh(32, 'code')
            s2.assume(code > 0)
        s2.ghost['mcode'] = bv(code, 32)
        return ex.throw(s2, code)
    mem.fail = memfail
    # ---- the object
    cl = Obj('commandLine', 'ext', CL['size'])
    st.mem[cl] = Content({}, uf_store('commandLine_byte', 8, 64))
    st.ghost['norm'] = False

    def entry(ex, s):
        """at the first loop: a null name is the absent argument"""
        if s.ghost['live']:
            s.ghost['pass'] = 1
        if s.ghost['norm']:
            return
        s.ghost['norm'] = True
        c = ex.content(s, cl).copy()
        for f in ('elf', 'bin', 'dump'):
            v = ex.rd(s, cl, c, CL[f], 8, True)
            if not (isinstance(v, Ptr) and v.b is NULLOBJ and v.off == 0):
                raise Unsupported('names are not null at the start')
            for k in range(8):
                c.cells.pop(CL[f] + k, None)
            c.cells[CL[f]] = (8, Ptr(strs, 0, bv(NONE, 32)))
        v = ex.rd(s, cl, c, CL['base'], 4, False)
        for k in range(4):
            c.cells.pop(CL['base'] + k, None)
        c.cells[CL['base']] = (4, v)
        s.mem[cl] = c
    ex.loop_entry = [entry]

    def hdr(ex, s, K):
        s.ghost['K2' if s.ghost['pass'] else 'K1'] = bv(K, 32)
        for t in (bv(K, 32), at(K)):
            s.term('opt', bv(K, 32))
        s.term('hist', bv(K, 32))
    ex.header_hooks.append(hdr)

    def forms(cut, loc, w):
        if loc[0] == 'gh' and loc[1] in ('K1', 'K2'):
            return []
        if w == 64:
            return [('argv', lambda K: Mul(z64(at(K)), 8, 64)), ('index', lambda K: z64(at(K))), ('rest', lambda K: z64(Sub(argc, at(K), 32)))]
        return [('at', at), ('argc', lambda K: Sub(argc, at(K), 32)), ('elf', elf), ('bin', bn), ('dump', dump), ('base', base), ('aliases', al)]
    ex.intforms.append(forms)
    seg = {'base': 1, 'size': 2, 'redirect': 3}

    def expect(f, K):
        o = const_store(0, 32, 'alias', (32,))
        return o.layer(lambda j: ULT(j, al(K), 32), lambda j: num(Add(at(opt(j)), seg[f], 32)))

    def summ(cut, loc):
        if loc[0] == 'st' and loc[1].startswith('alias.'):
            return [Def('aliases', lambda K: expect(loc[1][6:], K))]
        return ()
    ex.summarizers = [summ]
    ex.cands = [
        lambda ex, s, K: ULE(at(K), argc, 32),
        lambda ex, s, K: Implies(wf, ULE(K, n0, 32)) if not s.ghost['pass'] else None,
        lambda ex, s, K: ULE(K, s.ghost['K1'], 32) if s.ghost['pass'] else None,
        lambda ex, s, K: ULE(K, at(K), 32),
        lambda ex, s, K: And(*[Or(Eq(x(K), NONE, 32), ULT(x(K), argc, 32)) for x in (elf, bn, dump)]),
    ]
    what = 'Init'
    kinds = {}
    for s in r.call(st, 'CrashDebugCommandLine_Init', [Ptr(cl, 0), argc, Ptr(argv, 0, 0)]):
        kinds.setdefault(s.done[0], []).append(s)
        chk = lambda c, nm, props=P: r.check(s, c, what + ': ' + nm, props)
        chk(chain_ok(r, s), 'handler chain', ('C13', 'C18'))
        chk(fl.closed(s), 'every file is closed', ('C13',))
        chk(not [o for o in s.mem if o.kind == 'heap'], 'nothing is left allocated', ('C13',))
        K1, K2 = s.ghost['K1'], s.ghost['K2']
        s.term('opt', K1)
        s.term('opt', K2)
        s.term('hist', K1)
        s.term('hist', K2)
        mp = ex.rd(s, cl, ex.content(s, cl), CL['memory'], 8, True)
        if s.done[0] == 'throw':
            chk(isinstance(mp, Ptr) and mp.b is NULLOBJ and s.ghost['live'] != 1, 'on an error the memory is torn down and not left dangling')
            f = s.ghost['f.fail']
            if s.ghost['mcode'] is not None:
                t, m = code(r, s), s.ghost['mcode']
                chk(Or(Eq(t, m, 32), Eq(t, If(S(code0 > m), code0, m, 32), 32)), 'the error of a callee is passed on')
                chk(Implies(Not(wf), s.ghost['live'] == 0) if s.ghost['live'] == 0 else True, 'nothing is made before the options are accepted')
                continue
            if s.ghost['oom']:
                chk(thrown_is(r, s, code0, 'outOfMemory'), 'out of memory')
                continue
            if f:
                chk(thrown_is(r, s, code0, 'file'), 'a failing file operation is a file error')
                continue
            chk(And(Not(wf), thrown_is(r, s, code0, 'invalidArgument')), 'only malformed command lines are rejected, as invalid arguments')
            continue
        chk(s.ghost['live'] == 1 and isinstance(mp, Ptr) and mp.b is mem.obj and mp.off == 0, 'the memory is delivered')
        chk(not s.ghost['f.fail'] and not s.ghost['oom'] and s.ghost['mcode'] is None, 'no failure is hidden', P)
        chk(s.ghost['dumped'] is not None, 'image and dump are loaded')
        chk(complete(K1), 'image, dump and nothing else are given')
        h = fresh(32, 'anyOption')
        s.term('opt', h)
        s.term('hist', h)
        chk(Implies(ULT(h, K1, 32), ok(h)), 'every option is known and has its own parameters')
        chk(Eq(K1, K2, 32), 'every option is seen by both passes')
        chk(Eq(s.ghost['n.alias'], al(K1), 32), 'one alias for each alias option')
        j = fresh(32, 'anyAlias')
        s.term('opt', opt(j))
        for f in seg:
            chk(Implies(ULT(j, al(K1), 32), Eq(s.stores['alias.' + f].read(j), expect(f, K1).read(j), 32)), 'each alias has the given %s' % f)
    r.cover(kinds.get('ret', []), what + ' accepts', lambda s: ULT(2, al(s.ghost['K1']), 32))
    r.cover(kinds.get('throw', []), what + ' rejects', lambda s: Not(wf))


def uninit():
    r = Run('cmdline/CrashDebugCommandLine_Uninit', ['CrashDebugCommandLine', 'try_catch', 'common', 'MockDefaults'], {}, P)
    ex = r.ex
    st = r.state()
    code0 = setup(r, st)
    CL = cmdline_layout()
    mem = Obj('memory', 'ext', 8)
    null = fresh_bool('noMemory')
    cl = Obj('commandLine', 'ext', CL['size'])
    st.mem[cl] = Content({CL['memory']: (8, Alt([(null, NULL), (Not(null), Ptr(mem, 0))]))}, uf_store('commandLine_byte', 8, 64))
    st.ghost['down'] = bv(0, 32)

    def muninit(ex, st, a, ins):
        st.ghost['down'] = Add(st.ghost['down'], If(ex.ptr_eq(st, a[0], Ptr(mem, 0)), 1, 0, 32), 32)
        ex.oblige(st, Or(ex.ptr_eq(st, a[0], Ptr(mem, 0)), ex.ptr_eq(st, a[0], NULL)), 'the memory of the object is torn down')
        return [(st, None)]
    ex.contracts['MemorySim_Uninit'] = muninit
    fs = r.call(st, 'CrashDebugCommandLine_Uninit', [Ptr(cl, 0)])
    for s in fs:
        r.check(s, s.done[0] == 'ret', 'Uninit: returns', P)
        r.check(s, Implies(Not(null), Eq(s.ghost['down'], 1, 32)), 'Uninit: the memory is torn down exactly once', P)
    r.cover(fs, 'Uninit')


def program():
    """main.c over the contracts of the command line, the communication interface and the debugger platform"""
    P = ('C18',)
    for chain in (False, True):
        r = Run('cmdline/main', ['main', 'try_catch', 'MockDefaults'], {}, P)
        ex = r.ex
        ex.libc['fprintf'] = lambda ex, st, a, ins: [(st, fresh(32, 'printed'))]
        ex.libc['printf'] = ex.libc['fprintf']
        st = r.state()
        code0 = setup(r, st, chain)
        CL = cmdline_layout()
        argc = z3.BitVec('argc', 32)
        st.assume(argc >= 1)
        argv = Obj('argv', 'ext', Mul(SX(argc, 32, 64), 8, 64))
        st.mem[argv] = Content({}, uf_store('argv_byte', 8, 64))
        mem = Obj('memory', 'ext', 8)
        comm = Obj('comm', 'ext', 16)
        for n in ('obj', 'made', 'mem'):
            st.ghost[n] = None
        st.ghost['calls'] = ()
        st.ghost['failed'] = False

        def same(a, b):
            return isinstance(a, Ptr) and isinstance(b, Ptr) and a.b is b.b and S(bv(a.off, 64) == bv(b.off, 64))

        def call(n, may=True, pre=None, post=None, res=None):
            def h(ex, st, a, ins):
                st.ghost['calls'] = st.ghost['calls'] + (n,)
                if pre:
                    pre(ex, st, a)
                out = []
                if may:
                    c = fresh(32, 'code')
                    s2 = st.copy()
                    s2.assume(c > 0)
                    s2.ghost['failed'] = True
                    if n == 'CrashDebugCommandLine_Init':
                        put(ex, s2, a[0], NULL)
                    out.append(ex.throw(s2, c))
                if post:
                    post(ex, st, a)
                return out + [(st, res)]
            ex.contracts[n] = h

        def put(ex, s, p, v):
            ex.write_range(s, p, CL['size'], lambda i: PARSED.read(i), 'store')
            ex.wr(s, p.b, p.off + CL['memory'], 8, v)
        PARSED = uf_store('parsedCommandLine', 8, 64)

        def init_pre(ex, s, a):
            ex.oblige(s, 'CrashDebugCommandLine_Init' not in s.ghost['calls'][:-1], 'the command line is parsed once')
            ex.oblige(s, Eq(a[1], Sub(argc, 1, 32), 32), 'the arguments behind the program name are parsed, all of them')
            ex.oblige(s, same(a[2], Ptr(argv, 8)), 'the arguments behind the program name are parsed')
            ex.access_range(s, a[0], CL['size'], 'store')
            s.ghost['obj'] = a[0]

        def init_post(ex, s, a):
            put(ex, s, a[0], Ptr(mem, 0))
        call('CrashDebugCommandLine_Init', True, init_pre, init_post)

        def uninit_pre(ex, s, a):
            ex.oblige(s, s.ghost['obj'] is not None and same(a[0], s.ghost['obj']), 'the object that was parsed is torn down')
            ex.oblige(s, 'CrashDebugCommandLine_Uninit' not in s.ghost['calls'][:-1], 'it is torn down once')
        call('CrashDebugCommandLine_Uninit', False, uninit_pre)
        call('StandardIComm_Init', True, res=Ptr(comm, 0))
        call('StandardIComm_Uninit', False, lambda ex, s, a: ex.oblige(s, isinstance(a[0], Ptr) and a[0].b in (NULLOBJ, comm), 'the interface is released'))

        def plat_pre(ex, s, a):
            o = s.ghost['obj']
            ok = o is not None and not s.ghost['failed'] and 'CrashDebugCommandLine_Uninit' not in s.ghost['calls']
            ex.oblige(s, ok, 'the debugger starts after the command line was accepted')
            if ok:
                ex.oblige(s, same(a[0], Ptr(o.b, o.off + CL['context'])), 'the debugger is given the registers that were parsed')
            ex.oblige(s, same(a[1], Ptr(mem, 0)), 'the debugger is given the memory that was loaded')
            c = ex.content(s, o.b)
            j = fresh(64, 'any')
            rd = ex.byte_reader(s, Ptr(o.b, o.off + CL['context']))
            ex.oblige(s, Implies(ULT(j, regs()['size'], 64), Eq(rd(j), PARSED.read(Add(j, CL['context'], 64)), 8)), 'the registers are as parsed')
        call('mriPlatform_Init', True, plat_pre)

        def run_pre(ex, s, a):
            ex.oblige(s, 'mriPlatform_Init' in s.ghost['calls'] and not s.ghost['failed'] and 'CrashDebugCommandLine_Uninit' not in s.ghost['calls'] and
                      'StandardIComm_Uninit' not in s.ghost['calls'], 'the debugger runs on what it was given')
            ex.oblige(s, same(a[0], Ptr(comm, 0)), 'the debugger talks over the standard interface')
        call('mriPlatform_Run', True, run_pre)
        fs = r.call(st, 'main', [argc, Ptr(argv, 0)])
        kinds = {True: [], False: []}
        for s in fs:
            r.check(s, s.done[0] == 'ret', 'main: no exception escapes', P)
            if s.done[0] != 'ret':
                continue
            v = s.done[1]
            c = s.ghost['calls']
            r.check(s, Iff(s.ghost['failed'], Not(Eq(v, 0, 32))), 'main: the exit status tells whether there was an error', P)
            r.check(s, c.count('CrashDebugCommandLine_Uninit') == 1, 'main: the memory is torn down once', P)
            r.check(s, s.ghost['failed'] or 'mriPlatform_Run' in c, 'main: the debugger has run', P)
            r.check(s, chain_ok(r, s), 'main: handler chain', P)
            kinds[s.ghost['failed']].append(s)
        r.cover(kinds[False], 'main, no error')
        r.cover(kinds[True], 'main, error')


ASSUMPTIONS = [
    'at most 2^20 arguments, the program name among them; files of at most 2^31 bytes',
    'mriPlatform_Init, mriPlatform_Run and StandardIComm_Init may throw anything (main unit)',
    'strcasecmp and strtoul are uninterpreted functions of the argument (strcasecmp is an equivalence with distinct option names)',
    'the loaders and the simulated memory are used through their contracts, proved in their own units',
    'an empty raw image, or one reaching past 2^32, is unspecified',
]

UNITS = [('Init', P, init), ('Uninit', P, uninit), ('main', ('C18',), program)]
