"""C12 (and the parts of C13): GdbLogParser.c.

Three layers.  The line parser is proved over an arbitrary line of characters (units parseLine, skipWhitespace, skipSymbol,
findWhitespace).  GdbLogParse is proved over an arbitrary sequence of lines through the contract of the line parser: line l
is a memory line with an address and one to four words, a register line, or another line.  The runs of consecutive addresses are given
by recursion over the lines; the unit `runs` proves by induction the lemmas about them that GdbLogParse uses as facts."""
from ..target import *
from ..exc import *
from ..absmem import AbsMem
from ..fileio import File
from ..codes import codes, regs, gdblog_layout
from .memsim import Def
from .elf import thrown_is, z64

P = ('C12',)
PA = ('C12', 'C13')
LINE = 1024
NONE = (1 << 32) - 1
PARSE = 'parseLine'


class Lines:
    """what the lines of the log say, and the runs that they form"""
    def __init__(self, r, st):
        RG = regs()
        B32 = z3.BitVecSort(32)
        F = lambda n, w: (lambda f: (lambda l: f(bv(l, 32))))(z3.Function(n, B32, z3.BitVecSort(w)))
        FB = lambda n: (lambda f: (lambda l: f(bv(l, 32))))(z3.Function(n, B32, z3.BoolSort()))
        self.NL = z3.BitVec('lines', 32)
        st.assume(ULE(self.NL, 1 << 28, 32))
        ch = z3.Function('lineChar', B32, z3.BitVecSort(64), z3.BitVecSort(8))
        self.ch = lambda l, i: ch(bv(l, 32), bv(i, 64))
        self.len = F('lineLength', 64)
        # what the line parser finds
        self.kind, self.addr, self.cnt = F('lineKind', 8), F('lineAddress', 32), F('lineCount', 32)
        # the dumped words, as bytes
        lb = z3.Function('lineByte', B32, z3.BitVecSort(64), z3.BitVecSort(8))
        self.byte = lambda l, i: lb(bv(l, 32), bv(i, 64))
        self.val = lambda l, i: concat_bytes([self.byte(l, 4 * i + b) for b in range(4)])
        self.regoff, self.regval = F('lineRegister', 64), F('lineRegisterValue', 32)
        self.mem = lambda l: Eq(self.kind(l), 1, 8)
        self.reg = lambda l: Eq(self.kind(l), 2, 8)
        self.c4 = lambda l: Mul(self.cnt(l), 4, 32)
        self.isfp = lambda l: And(ULE(RG['FPR'], self.regoff(l), 64), ULT(self.regoff(l), RG['FPR'] + 4 * 32, 64))
        # the runs: the current one (open, rs, rz, end), the number of closed ones (nr), and the closed ones (B, Z)
        self.open, self.end, self.rs, self.rz, self.nr = FB('runOpen'), F('runEnd', 32), F('runStart', 32), F('runSize', 32), F('closedRuns', 32)
        self.B, self.Z = F('closedStart', 32), F('closedSize', 32)
        self.newrun = lambda l: And(self.mem(l), Or(Not(self.open(l)), Not(Eq(self.addr(l), self.end(l), 32))))
        self.run = lambda l: self.nr(Add(l, 1, 32))
        self.off = lambda l: Sub(self.rz(Add(l, 1, 32)), self.c4(l), 32)
        self.nruns = lambda: Add(self.nr(self.NL), If(self.open(self.NL), 1, 0, 32), 32)

    def scope(self, l):
        """what holds of every line: the contract of the line parser, and the scope of the property"""
        RG = regs()
        ro = self.regoff(l)
        word = lambda base, n: And(ULE(base, ro, 64), ULT(ro, base + 4 * n, 64), Eq(S(z3.Extract(1, 0, bv(ro, 64))), base & 3, 2))
        return And(ULT(self.len(l), LINE, 64),
                   Implies(self.mem(l), And(ULE(1, self.cnt(l), 32), ULE(self.cnt(l), 4, 32))),
                   # scope: the dumped words do not reach the end of the address space
                   Implies(self.mem(l), ULT(Add(z64(self.addr(l)), z64(self.c4(l)), 64), 1 << 32, 64)),
                   Implies(self.reg(l), Or(word(RG['R'], RG['nR']), word(RG['FPR'], RG['nFPR']))))

    def base(self):
        return And(S(Not(self.open(0))), Eq(self.nr(0), 0, 32))

    def step(self, l):
        n = Add(l, 1, 32)
        m, w = self.mem(l), self.newrun(l)
        return And(S(self.open(n) == Or(self.open(l), m)),
                   Eq(self.end(n), If(m, Add(self.addr(l), self.c4(l), 32), self.end(l), 32), 32),
                   Eq(self.rs(n), If(w, self.addr(l), self.rs(l), 32), 32),
                   Eq(self.rz(n), If(m, Add(If(w, 0, self.rz(l), 32), self.c4(l), 32), self.rz(l), 32), 32),
                   Eq(self.nr(n), Add(self.nr(l), If(And(w, self.open(l)), 1, 0, 32), 32), 32),
                   # the run that ends here
                   Implies(And(w, self.open(l)), And(Eq(self.B(self.nr(l)), self.rs(l), 32), Eq(self.Z(self.nr(l)), self.rz(l), 32))))

    def last(self):
        N = self.NL
        return Implies(self.open(N), And(Eq(self.B(self.nr(N)), self.rs(N), 32), Eq(self.Z(self.nr(N)), self.rz(N), 32)))

    # ---- lemmas, proved by induction over the lines in the unit `runs`
    def lemma_open(self, k):
        """the current run is what lies between its start and its end"""
        return And(Implies(self.open(k), And(Eq(Add(z64(self.rs(k)), z64(self.rz(k)), 64), z64(self.end(k)), 64), ULE(4, self.rz(k), 32))),
                   ULE(self.nr(k), k, 32), Implies(self.open(k), ULT(self.nr(k), k, 32)))

    def lemma_in(self, m, k):
        """line m < k lies in its run"""
        j, e = self.run(m), self.rz(Add(m, 1, 32))
        s = self.rs(Add(m, 1, 32))
        return Implies(And(self.mem(m), ULT(m, k, 32)), And(self.open(k), Or(
            And(Eq(self.nr(k), j, 32), Eq(self.rs(k), s, 32), ULE(e, self.rz(k), 32)),
            And(ULT(j, self.nr(k), 32), Eq(self.B(j), s, 32), ULE(e, self.Z(j), 32)))))

    def lemma_apart(self, m, k):
        """lines m < k of one run lie one behind the other"""
        return Implies(And(self.mem(m), self.mem(k), ULT(m, k, 32), Eq(self.run(m), self.run(k), 32)), ULE(self.rz(Add(m, 1, 32)), self.off(k), 32))

    # ---- the facts that follow for the whole log
    def whole(self, l):
        """a memory line lies in its run, at the distance of its address from the start of the run"""
        e = self.rz(Add(l, 1, 32))
        j = self.run(l)
        return Implies(And(ULT(l, self.NL, 32), self.mem(l)), And(
            ULT(j, self.nruns(), 32), ULE(self.c4(l), e, 32), ULE(e, self.Z(j), 32),
            Eq(Add(z64(self.B(j)), z64(self.off(l)), 64), z64(self.addr(l)), 64)))


def runs():
    """the lemmas, by induction"""
    r = Run('gdblog/runs', ['try_catch'], {}, P)
    st = r.state()
    ln = Lines(r, st)
    N = ln.NL
    st.assume(ln.base())
    # the recursion holds for every line below the length of the log
    rec = lambda s, l: s.assume(Implies(ULT(l, N, 32), And(ln.scope(l), ln.step(l))))

    def unit(name, hyps, goal):
        s = st.copy()
        for h in hyps:
            s.assume(h)
        r.check(s, goal, 'lemma ' + name, P)
        r.cover([s], 'lemma ' + name)
    k, m = z3.BitVec('k', 32), z3.BitVec('m', 32)
    k1 = Add(k, 1, 32)
    ih = lambda l: Implies(ULT(l, N, 32), And(ln.scope(l), ln.step(l)))
    unit('open, at the start', [], ln.lemma_open(bv(0, 32)))
    unit('open, next line', [ULT(k, N, 32), ih(k), ln.lemma_open(k)], ln.lemma_open(k1))
    m1 = Add(m, 1, 32)
    unit('in, at its line', [ULT(m, N, 32), ih(m), ln.lemma_open(m)], ln.lemma_in(m, m1))
    unit('in, next line', [ULT(m, k, 32), ULT(k, N, 32), ih(k), ln.lemma_open(k), ln.lemma_in(m, k)], ln.lemma_in(m, k1))
    unit('apart', [ULT(m, k, 32), ULT(k, N, 32), ih(m), ih(k), ln.lemma_open(k), ln.lemma_in(m, k)], ln.lemma_apart(m, k))
    unit('whole', [ULT(m, N, 32), ih(m), ln.lemma_open(m), ln.lemma_open(m1), ln.lemma_in(m, N), ln.lemma_open(N), ln.last()], ln.whole(m))


def parse():
    smt.INT_FIRST[0] = True
    fn = 'GdbLogParse'
    r = Run('gdblog/' + fn, ['GdbLogParser', 'try_catch', 'common'], {}, PA)
    ex = r.ex
    ex.merge_min = 2
    r.internals('GdbLogParser')
    st = r.state()
    code0 = setup(r, st)
    L, RG, G = codes(), regs(), gdblog_layout()
    r.oomcode = L['outOfMemory']
    if PARSE not in r.mods['GdbLogParser'].funcs or len(r.mods['GdbLogParser'].funcs[PARSE].params) != 2:
        raise Unsupported('no line parser')
    if G['maxvalues'] != 4 or G['typesize'] != 4:
        raise Unsupported('layout of the parse results')
    mem = AbsMem(r, st)
    N0 = mem.N0
    ln = Lines(r, st)
    NL = ln.NL
    fl = File(r, st)
    st.ghost['f.line'] = bv(0, 32)
    st.ghost['f.pass'] = 0
    name = Obj('filename', 'ext', 2)
    st.mem[name] = Content({0: (1, ord('f')), 1: (1, 0)}, None)
    ctx = Obj('registers', 'ext', RG['size'])
    r0 = uf_store('register_byte', 8, 64)
    st.mem[ctx] = Content({}, r0)
    # ---- the facts about the lines
    st.assume(And(ln.base(), ln.last(), Eq(ln.nr(NL), ln.nr(NL), 32)))
    st.facts.append(Fact('line', lambda l: And(ln.scope(l), ln.step(l), ln.lemma_open(l), ln.whole(l))))
    LN = z3.Function('lineAt', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(32))
    lineat = lambda k, o: LN(bv(k, 32), bv(o, 64))
    covers = lambda l, o: And(ln.mem(l), ULE(z64(ln.off(l)), o, 64), ULT(Sub(o, z64(ln.off(l)), 64), z64(ln.c4(l)), 64))
    # at most one line of a run covers an offset (lemma `apart`): lineAt names it
    st.facts.append(Fact('cover', lambda p: Implies(And(ULT(p[0], NL, 32), covers(*p)), Eq(lineat(ln.run(p[0]), p[1]), p[0], 32))))
    # the bytes of the register context after l lines
    RB = z3.Function('registerByte', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(8))
    rb = lambda l, o: RB(bv(l, 32), bv(o, 64))
    byteof = lambda v, i: If(Eq(i, 0, 64), z3.Extract(7, 0, bv(v, 32)), If(Eq(i, 1, 64), z3.Extract(15, 8, bv(v, 32)), If(Eq(i, 2, 64), z3.Extract(23, 16, bv(v, 32)), z3.Extract(31, 24, bv(v, 32)), 8), 8), 8)
    isin = lambda o, w: And(ULE(w, o, 64), ULT(Sub(o, w, 64), 4, 64))

    def rb0(o):
        v = r0.read(o)
        for x in ('MSP', 'PSP'):
            w = RG['R'] + 4 * RG[x]
            v = If(isin(o, w), byteof(RG['DEFAULT_SP'], Sub(o, w, 64)), v, 8)
        return v

    def rbstep(p):
        l, o = p
        old = rb(l, o)
        flag = If(And(ln.reg(l), ln.isfp(l), isin(o, RG['flags'])), S(bv(old, 8) | bv(byteof(RG['FP_FLAG'], Sub(o, RG['flags'], 64)), 8)), old, 8)
        new = If(And(ln.reg(l), isin(o, ln.regoff(l))), byteof(ln.regval(l), Sub(o, ln.regoff(l), 64)), flag, 8)
        return And(Eq(rb(0, o), rb0(o), 8), Eq(rb(Add(l, 1, 32), o), new, 8))
    st.facts.append(Fact('regbyte', rbstep))
    for t in (0, NL):
        st.term('line', bv(t, 32))
    st0 = st.copy()
    # ---- contracts
    size = [None]

    def fgets(ex, st, a, ins):
        buf, n, f = a
        fl.mine(ex, st, f)
        if not isinstance(n, int):
            raise Unsupported('fgets with an unknown size')
        ex.oblige(st, LINE <= n < 1 << 31, 'lines of up to 1023 characters are read as a whole')
        if size[0] not in (None, n):
            raise Unsupported('fgets with different sizes')
        size[0] = n
        l = st.ghost['f.line']
        st.term('line', bv(l, 32))
        ex.access(st, buf, n, 'store')
        c = ULT(l, NL, 32)
        s, t = AbsMem.fork(None, ex, st, c)
        out = []
        if s is not None:
            s.ghost['f.line'] = Add(l, 1, 32)
            ex.write_block(s, buf, n, Add(ln.len(l), 1, 64), lambda i: If(ULT(i, ln.len(l), 64), ln.ch(l, i), 0, 8), 'store')
            out.append((s, buf))
        if t is not None:
            out.append((t, NULL))
        return out
    ex.libc['fgets'] = fgets
    r.gset(st, 'hook_fgets', ex.func_ptr('fgets'), 8)

    def fseek(ex, st, a, ins):
        fl.mine(ex, st, a[0])
        s2 = fl.failing(st, 'seek')
        if not (isinstance(a[1], int) and isinstance(a[2], int)):
            raise Unsupported('fseek with unknown arguments')
        if not (a[1] == 0 and a[2] == 0):
            raise Unsupported('fseek to another place')
        st.ghost['f.line'] = bv(0, 32)
        st.ghost['f.pass'] += 1
        return [(s2, mask(-1, 32)), (st, 0)]
    ex.libc['fseek'] = fseek
    r.gset(st, 'hook_fseek', ex.func_ptr('fseek'), 8)

    def parseline(ex, st, a, ins):
        out, p = a
        l = Sub(st.ghost['f.line'], 1, 32)
        st.term('line', bv(l, 32))
        ex.access_range(st, p, Add(ln.len(l), 1, 64), 'load')
        rd = ex.byte_reader(st, p)
        j = fresh(64, 'any')
        ex.oblige(st, Implies(ULE(j, ln.len(l), 64), Eq(rd(j), If(ULT(j, ln.len(l), 64), ln.ch(l, j), 0, 8), 8)), 'the line parser gets the line')
        res = []

        junk = uf_store('unsetResult', 8, 64)
        for kind, cnt in [(0, 0), (2, 0), (1, 1), (1, 2), (1, 3), (1, 4)]:
            c = And(Eq(ln.kind(l), kind, 8), Eq(ln.cnt(l), cnt, 32) if cnt else True)
            if kind == 0:
                c = And(Not(ln.mem(l)), Not(ln.reg(l)))
            if not ex.feasible(st, c):
                continue
            s = st.copy()
            s.assume(c)
            fields = [(G['type'], 4, {0: G['OTHER'], 1: G['MEMORY'], 2: G['REGISTER']}[kind])]
            if kind == 1:
                fields += [(G['address'], 4, ln.addr(l)), (G['count'], 4, cnt)] + [(G['values'] + 4 * i, 4, ln.val(l, i)) for i in range(cnt)]
            if kind == 2:
                fields += [(G['regoff'], 8, ln.regoff(l)), (G['regval'], 4, ln.regval(l))]

            def byte(i, fields=fields):
                v = junk.read(i)
                for off, n, x in fields:
                    for b in range(n):
                        v = If(Eq(i, off + b, 64), S(z3.Extract(8 * b + 7, 8 * b, bv(x, 8 * n))), v, 8)
                return v
            ex.write_block(s, out, G['size'], G['size'], byte)
            res.append((s, None))
        return res
    ex.contracts[PARSE] = parseline

    def locate(ex, st, a, n):
        """the region of the run of the current line"""
        l = Sub(st.ghost['f.line'], 1, 32)
        st.term('line', bv(l, 32))
        k = Add(N0, ln.run(l), 32)
        st.term('node', k)
        b, s = z64(mem.get(st, 'base', k)), z64(mem.get(st, 'size', k))
        a64 = z64(a)
        # the same offset, counted from that of the line
        d = Sub(a, ln.addr(l), 32)
        off = Add(z64(ln.off(l)), z64(d), 64)
        return And(ULT(k, st.ghost['m.N'], 32), ULE(b, a64, 64), ULE(Add(a64, n, 64), Add(b, s, 64), 64), ULE(Add(a64, n, 64), 1 << 32, 64), Eq(Add(b, off, 64), a64, 64)), k, off
    mem.last = locate
    # ---- loop summaries
    seg = lambda k: Sub(k, N0, 32)
    new = lambda k, c: And(ULE(N0, k, 32), ULT(seg(k), c, 32))

    def made(c):
        """the regions of the first c runs"""
        o = st0.stores
        e = {'m.base': o['m.base'].layer(lambda k: new(k, c), lambda k: ln.B(seg(k))),
             'm.size': o['m.size'].layer(lambda k: new(k, c), lambda k: ln.Z(seg(k))),
             'm.byte': o['m.byte'].layer(lambda k, j: new(k, c), lambda k, j: 0)}
        for f in ('ro', 'alias', 'redirect'):
            e['m.' + f] = o['m.' + f].layer(lambda k: new(k, c), lambda k: 0)
        return e

    def filled(K):
        """the words of the first K lines"""
        o = made(ln.nruns())['m.byte']

        def hit(k, j):
            l = lineat(seg(k), j)
            return And(new(k, ln.nruns()), ULT(l, K, 32), Eq(ln.run(l), seg(k), 32), covers(l, j))
        return o.layer(hit, lambda k, j: ln.byte(lineat(seg(k), j), Sub(j, z64(ln.off(lineat(seg(k), j))), 64)))

    def regbytes(K):
        return Store(lambda o: rb(K, o), 8, 'registers', (), (64,))

    def summ(cut, loc):
        if loc == ('bg', ctx):
            return [Def('registers', regbytes)]
        if loc[0] != 'st' or not loc[1].startswith('m.'):
            return ()
        if cut.st.ghost['f.pass']:
            return [Def('words', filled)] if loc[1] == 'm.byte' else ()
        return [Def('runs', lambda K: made(ln.nr(K))[loc[1]])]
    ex.summarizers = [summ]

    def keys(ex, s, loc, ks, K):
        s.term('line', bv(K, 32))
        if loc == ('bg', ctx):
            s.term2('regbyte', (bv(K, 32), ks[0]))
        if loc == ('st', 'm.byte') and s.ghost['f.pass']:
            s.term2('cover', (bv(K, 32), ks[1]))
            s.term('line', lineat(seg(ks[0]), ks[1]))
    ex.key_hooks.append(keys)
    ex.header_hooks.append(lambda ex, s, K: s.term('line', bv(K, 32)))

    def forms(cut, loc, w):
        if w != 32:
            return []
        return [('start', lambda K: If(ln.open(K), ln.rs(K), NONE, 32)), ('size', lambda K: If(ln.open(K), ln.rz(K), 0, 32)),
                ('end', lambda K: If(ln.open(K), ln.end(K), NONE, 32)), ('regions', lambda K: Add(N0, ln.nr(K), 32))]
    ex.intforms.append(forms)
    ex.cands = [lambda ex, s, K: ULE(K, NL, 32)]
    # ---- the call
    what = fn
    kinds = {}
    for s in r.call(st, fn, [mem.p, Ptr(ctx, 0), Ptr(name, 0)]):
        kinds.setdefault(s.done[0], []).append(s)
        chk = lambda c, nm, props=P: r.check(s, c, what + ': ' + nm, props)
        chk(chain_ok(r, s), 'handler chain', ('C13',))
        chk(fl.closed(s), 'the file is closed', PA)
        chk(not [o for o in s.mem if o.kind == 'heap'], 'nothing is left allocated', ('C13',))
        s.term('line', NL)
        if s.done[0] == 'throw':
            f = s.ghost['f.fail']
            mf = s.ghost['m.fail']
            if f:
                chk(And(Not(mf), thrown_is(r, s, code0, 'file')), 'a file that cannot be opened or rewound is a file error', PA)
                if 'open' in f:
                    chk(Eq(s.ghost['m.N'], N0, 32), 'nothing is created from a file that cannot be opened', PA)
            else:
                chk(And(mf, thrown_is(r, s, code0, 'outOfMemory')), 'only running out of memory fails besides the file', PA)
            continue
        chk(And(not s.ghost['f.fail'], Not(s.ghost['m.fail'])), 'no failure is hidden', PA)
        chk(Eq(s.ghost['m.N'], Add(N0, ln.nruns(), 32), 32), 'one region for each run')
        k, j = fresh(32, 'any'), fresh(64, 'any')
        inlog = made(ln.nruns())
        for g, nm in (('m.base', 'each region starts where its run starts'), ('m.size', 'each region has the size of its run'), ('m.ro', 'each region is writable'), ('m.alias', 'no region is an alias')):
            chk(Eq(s.stores[g].read(k), inlog[g].read(k), 32), nm + ', the others are unchanged')
        chk(Implies(Not(new(k, ln.nruns())), Eq(s.stores['m.byte'].read(k, j), st0.stores['m.byte'].read(k, j), 8)), 'no byte of another region changes')
        l, i = fresh(32, 'anyLine'), fresh(64, 'anyByte')
        s.term('line', l)
        at = Add(z64(ln.off(l)), i, 64)
        s.term2('cover', (l, at))
        kk = Add(N0, ln.run(l), 32)
        s.term('line', lineat(seg(kk), at))
        pre = And(ULT(l, NL, 32), ln.mem(l), ULT(i, z64(ln.c4(l)), 64))
        chk(Implies(pre, And(Eq(s.stores['m.byte'].read(kk, at), ln.byte(l, i), 8), ULT(at, z64(s.stores['m.size'].read(kk)), 64),
                             Eq(Add(z64(s.stores['m.base'].read(kk)), at, 64), Add(z64(ln.addr(l)), i, 64), 64))), 'each dumped word is at its address')
        o = fresh(64, 'anyRegister')
        s.term2('regbyte', (NL, o))
        rd = ex.byte_reader(s, Ptr(ctx, 0))
        chk(Implies(ULT(o, RG['size'], 64), Eq(rd(o), rb(NL, o), 8)), 'each named register has its last value, MSP and PSP their default, the others are unchanged; floating point registers set their flag')
    r.cover(kinds.get('ret', []), what + ' completes', lambda s: And(ULT(Add(N0, 1, 32), s.ghost['m.N'], 32)))
    r.cover(kinds.get('throw', []), what + ' fails')


SPACE = lambda c: Or(And(ULE(9, c, 8), ULE(c, 13, 8)), Eq(c, 32, 8))
HEX = lambda c: Or(And(ULE(0x30, c, 8), ULE(c, 0x39, 8)), And(ULE(0x61, c, 8), ULE(c, 0x66, 8)), And(ULE(0x41, c, 8), ULE(c, 0x46, 8)))


def ctype_table():
    """the character classes of the C locale, taken from the C library"""
    import ctypes
    f = ctypes.CDLL(None).__ctype_b_loc
    f.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_ushort))
    t = f().contents
    return [t[i] for i in range(-128, 256)]


class Line:
    """one arbitrary line of characters, and the C library functions on it"""
    def __init__(self, r, st):
        ex = self.ex = r.ex
        U = z3.BitVecSort(64)
        F = lambda n, *ws: z3.Function(n, *([z3.BitVecSort(w) for w in ws]))
        ch = F('char', 64, 8)
        self.ch = lambda i: ch(bv(i, 64))
        self.len = z3.BitVec('length', 64)
        st.assume(ULT(self.len, LINE, 64))
        # nothing behind the terminator belongs to the line
        self.obj = Obj('line', 'ext', Add(self.len, 1, 64))
        st.mem[self.obj] = Content({}, Store(lambda i: self.ch(i), 8, 'line', (), (64,)))
        ws, fw, sk, sym = F('blankEnd', 64, 64), F('wordEnd', 64, 64), F('symbolEndAt', 64, 32, 64), F('symbolEnd', 64, 64)
        nv, ne = F('number', 64, 32, 64), F('numberEnd', 64, 32, 64)
        self.ws, self.fw, self.sym = [(lambda f: lambda p: f(bv(p, 64)))(f) for f in (ws, fw, sym)]
        self.sk = lambda p, l: sk(bv(p, 64), bv(l, 32))
        self.num = lambda p, b: nv(bv(p, 64), bv(b, 32))
        self.numend = lambda p, b: ne(bv(p, 64), bv(b, 32))
        n = self.len
        self.inside = lambda p: ULE(p, n, 64)
        nxt = lambda p: Add(p, 1, 64)

        def pos(p):
            c = self.ch(p)
            rng = lambda q: And(ULE(p, q, 64), ULE(q, n, 64))
            return Implies(self.inside(p), And(
                Eq(self.ws(p), If(SPACE(c), self.ws(nxt(p)), p, 64), 64), rng(self.ws(p)),
                Eq(self.fw(p), If(Or(Eq(c, 0, 8), SPACE(c)), p, self.fw(nxt(p)), 64), 64), rng(self.fw(p)),
                Eq(self.sym(p), If(Eq(c, 0x3c, 8), self.sk(p, 0), p, 64), 64), rng(self.sym(p))))
        st.facts.append(Fact('pos', lambda p: Implies(self.inside(p), S(tb(Eq(self.ch(p), 0, 8)) == tb(Eq(p, n, 64))))))
        st.facts.append(Fact('scan', pos))

        def skip(t):
            p, l = t
            c = self.ch(p)
            up, down = Eq(c, 0x3c, 8), Eq(c, 0x3e, 8)
            stop = Or(Eq(c, 0, 8), And(SPACE(c), Eq(l, 0, 32)))
            return Implies(self.inside(p), And(
                Eq(self.sk(p, l), If(stop, p, self.sk(nxt(p), Add(l, If(up, 1, If(down, mask(-1, 32), 0, 32), 32), 32)), 64), 64),
                ULE(p, self.sk(p, l), 64), ULE(self.sk(p, l), n, 64)))
        st.facts.append(Fact('sk', skip))

        def number(t):
            p, b = t
            c = self.ch(p)
            e = self.numend(p, b)
            digit = And(ULE(0x30, c, 8), ULE(c, 0x39, 8))
            sign = Or(Eq(c, 0x2b, 8), Eq(c, 0x2d, 8))
            hexed = And(Eq(c, 0x30, 8), Or(Eq(self.ch(nxt(p)), 0x78, 8), Eq(self.ch(nxt(p)), 0x58, 8)), HEX(self.ch(Add(p, 2, 64))))
            b0 = bv(0, 32)
            return Implies(self.inside(p), And(
                ULE(p, e, 64), ULE(e, n, 64), Implies(Eq(c, 0, 8), Eq(e, p, 64)),
                Implies(Eq(b, 0, 32), And(Implies(digit, Not(Eq(e, p, 64))), Implies(Not(Or(digit, sign, SPACE(c))), Eq(e, p, 64)))),
                # with the prefix 0x base 16 and base 0 are the same
                Implies(And(hexed, Or(Eq(b, 0, 32), Eq(b, 16, 32))), And(Eq(self.num(p, b), self.num(p, 0), 64), Eq(e, self.numend(p, 0), 64)))))
        st.facts.append(Fact('num', number))
        for p in (0, n):
            st.term('pos', bv(p, 64))
        L = ex.libc

        def mine(ex, st, p):
            """offset of a pointer into the line"""
            if not (isinstance(p, Ptr) and p.b is self.obj):
                raise Unsupported('another string than the line')
            o = off64(p.off)
            st.term('pos', bv(o, 64))
            ex.oblige(st, self.inside(o), 'the position is inside of the line')
            return o
        self.mine = mine

        def strlen(ex, st, a, ins):
            return [(st, Sub(n, mine(ex, st, a[0]), 64))]

        def strncmp(ex, st, a, ins):
            from ..libc import cstr
            x, y, k = a
            if not isinstance(k, int):
                raise Unsupported('strncmp with an unknown length')
            if isinstance(x, Ptr) and x.b is self.obj:
                x, y = y, x
            s = cstr(ex, st, x)
            if s is None:
                raise Unsupported('strncmp of two unknown strings')
            o = mine(ex, st, y)
            s = (list(s) + [0])[:k]
            for i in range(len(s)):
                st.term('pos', bv(Add(o, i, 64), 64))
            v = fresh(32, 'cmp')
            st.assume(Not(Eq(v, 0, 32)))
            return [(st, If(And(*[Eq(self.ch(Add(o, i, 64)), c, 8) for i, c in enumerate(s)]), 0, v, 32))]

        def strtoul(ex, st, a, ins):
            p, e, b = a
            o = mine(ex, st, p)
            if not (isinstance(b, int) and b == 0):
                self.numterms(st, o, b)
            st.assume(And(ULE(o, self.numend(o, b), 64), self.inside(self.numend(o, b))))
            if not (isinstance(e, Ptr) and e.b is NULLOBJ):
                ex.access(st, e, 8, 'store')
                ex.wr(st, e.b, e.off, 8, Ptr(self.obj, self.numend(o, b)))
            st.term('pos', bv(self.numend(o, b), 64))
            return [(st, self.num(o, b))]
        L['strlen'], L['strncmp'], L['strtoul'], L['__isoc23_strtoul'] = strlen, strncmp, strtoul, strtoul
        # the character classes
        tab = ctype_table()
        bits = {}
        for b in range(16):
            runs, i = [], 0
            while i < 384:
                if tab[i] >> b & 1:
                    j = i
                    while j + 1 < 384 and tab[j + 1] >> b & 1:
                        j += 1
                    runs.append((i, j))
                    i = j
                i += 1
            bits[b] = runs

        def classes(o):
            if isinstance(o, int):
                return (tab[o // 2] >> (8 * (o % 2))) & 0xff
            q = div_exact(o, 2)
            if q is None:
                raise Unsupported('character table')
            i, h = q
            bit = lambda b: If(Or(*[And(ULE(x, i, 64), ULE(i, y, 64)) for x, y in bits[b]]), 1, 0, 1)
            return S(z3.Concat(*[bv(bit(8 * h + b), 1) for b in range(7, -1, -1)]))
        ct = Obj('characterClasses', 'ext', 768)
        st.mem[ct] = Content({}, Store(classes, 8, 'classes', (), (64,)))
        cp = Obj('characterClassesPtr', 'ext', 8)
        st.mem[cp] = Content({0: (8, Ptr(ct, 256))}, None)
        L['__ctype_b_loc'] = lambda ex, st, a, ins: [(st, Ptr(cp, 0))]
        isspace = lambda ex, st, a, ins: [(st, If(And(Eq(S(bv(a[0], 32) >> 8), 0, 32), SPACE(TR(a[0], 32, 8))), 8192, 0, 32))]
        L['isspace'] = isspace
        ex.cand_makers = [self.makers]

    def numterms(self, st, o, b):
        st.term2('num', (bv(o, 64), bv(b, 32)))
        st.term2('num', (bv(o, 64), bv(0, 32)))
        st.term('pos', bv(Add(o, 1, 64), 64))
        st.term('pos', bv(Add(o, 2, 64), 64))

    def makers(self, cut):
        """where the search that is going on will end does not change from one character to the next"""
        out = []
        st = cut.st
        here = lambda v: isinstance(v, Ptr) and v.b is self.obj
        ptrs = [l for l in cut.locs if l[0] == 'cell' and l[3] == 8 and here(cut.get(st, l))]
        ints = [l for l in cut.locs if l[0] == 'cell' and l[3] == 4 and is_int(cut.get(st, l))]

        def term(ex, s, p, l=None):
            p = bv(off64(p), 64)
            s.term('pos', p)
            s.term('pos', bv(Add(p, 1, 64), 64))
            s.term('scan', p)
            s.term('scan', bv(Add(p, 1, 64), 64))
            if l is not None:
                s.term2('sk', (p, bv(l, 32)))
        for P in ptrs:
            p0 = off64(cut.get(st, P).off)
            for f in (self.ws, self.fw):
                def c(ex, s, K, P=P, f=f, p0=p0):
                    p = cut.get(s, P)
                    if not here(p):
                        return None
                    term(ex, s, p.off)
                    term(ex, s, p0)
                    return And(self.inside(off64(p.off)), Eq(f(off64(p.off)), f(p0), 64))
                out.append(c)
            for N in ints:
                def c(ex, s, K, P=P, N=N, p0=p0, n0=cut.get(st, N)):
                    p, l = cut.get(s, P), cut.get(s, N)
                    if not here(p):
                        return None
                    term(ex, s, p.off, l)
                    term(ex, s, p0, n0)
                    return And(self.inside(off64(p.off)), Eq(self.sk(off64(p.off), l), self.sk(p0, n0), 64))
                out.append(c)

            def c(ex, s, K, P=P):
                p = cut.get(s, P)
                return self.inside(off64(p.off)) if here(p) else None
            out.append(c)
        return out


LEAF = {'skipWhitespace': 'ws', 'findWhitespace': 'fw', 'skipSymbol': 'sym'}


def is_leaf(r, n):
    """a function from a position to a position"""
    m = r.mods['GdbLogParser']
    f = m.funcs.get(n)
    return f is not None and len(f.params) == 1 and f.params[0][0].k == 'ptr'


def scanner(name):
    def go():
        r = Run('gdblog/' + name, ['GdbLogParser', 'try_catch'], {}, P)
        ex = r.ex
        ex.merge_min = 2
        if not is_leaf(r, name):
            return
        st = r.state()
        setup(r, st)
        ln = Line(r, st)
        p0 = z3.BitVec('position', 64)
        st.assume(ln.inside(p0))
        st.term('pos', p0)
        st.term('scan', p0)
        st.term2('sk', (p0, bv(0, 32)))
        st0 = st.copy()
        fs = r.call(st, name, [Ptr(ln.obj, p0)])
        want = getattr(ln, LEAF[name])(p0)
        for s in fs:
            v = s.done[1]
            r.check(s, s.done[0] == 'ret' and isinstance(v, Ptr) and v.b is ln.obj, name + ': stays in the line', P)
            r.check(s, Eq(off64(v.off), want, 64), name + ': finds the end', P)
            r.check(s, unchanged(r, st0, s), name + ': changes nothing', P)
        r.cover(fs, name, lambda s: ULT(Add(p0, 2, 64), want, 64))
    return go


NAMES = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc', 'xpsr', 'msp', 'psp']
FNAMES = ['s%d' % i for i in range(32)] + ['fpscr']


HEXFN = 'isHexDigit'


def is_hexfn(r):
    """a predicate on characters"""
    f = r.mods['GdbLogParser'].funcs.get(HEXFN)
    return f is not None and len(f.params) == 1 and f.params[0][0].k == 'int' and f.params[0][0].w in (8, 32) and f.ret.k == 'int'


def hexdigit():
    r = Run('gdblog/' + HEXFN, ['GdbLogParser', 'try_catch'], {}, P)
    if not is_hexfn(r):
        return
    st = r.state()
    setup(r, st)
    c = z3.BitVec('character', 8)
    w = r.mods['GdbLogParser'].funcs[HEXFN].params[0][0].w
    st0 = st.copy()
    fs = r.call(st, HEXFN, [c if w == 8 else S(z3.SignExt(24, c))])
    for s in fs:
        v = s.done[1]
        r.check(s, s.done[0] == 'ret', HEXFN + ': no error', P)
        v = v if not isinstance(v, Poison) else fresh(32, 'unset')
        r.check(s, tb(Not(Eq(v, 0, 32))) == tb(HEX(c)), HEXFN + ': tells the digits 0-9, a-f and A-F from the others', P)
        r.check(s, unchanged(r, st0, s), HEXFN + ': changes nothing', P)
    r.cover(fs, HEXFN, lambda s: HEX(c))


def parseline():
    r = Run('gdblog/' + PARSE, ['GdbLogParser', 'try_catch'], {}, P)
    ex = r.ex
    ex.merge_min = 2
    ex.try_unroll = 6
    RG, G = regs(), gdblog_layout()
    st = r.state()
    setup(r, st)
    ln = Line(r, st)
    for n, f in LEAF.items():
        if not is_leaf(r, n):
            continue

        def h(ex, st, a, ins, f=f):
            o = ln.mine(ex, st, a[0])
            q = getattr(ln, f)(o)
            st.assume(And(ULE(o, q, 64), ULE(q, ln.len, 64)))
            st.term('pos', bv(q, 64))
            return [(st, Ptr(ln.obj, q))]
        ex.contracts[n] = h
    if is_hexfn(r):
        def hx(ex, st, a, ins):
            v = fresh(32, 'isHex')
            c = a[0] if r.mods['GdbLogParser'].funcs[HEXFN].params[0][0].w == 8 else TR(a[0], 32, 8)
            st.assume(S(tb(Not(Eq(v, 0, 32))) == tb(HEX(c))))
            return [(st, v)]
        ex.contracts[HEXFN] = hx
    res = Obj('results', 'ext', G['size'])
    st.mem[res] = Content({}, uf_store('results_byte', 8, 64))
    # ---- what the line says
    ch, n = ln.ch, ln.len
    memline = And(ULT(11, n, 64), Eq(ch(0), 0x30, 8), Eq(ch(1), 0x78, 8), *[HEX(ch(i)) for i in range(2, 10)])
    for i in range(17):
        st.term('pos', bv(i, 64))
    terms, nums, sks = [], [bv(0, 64)], []
    p, going = bv(11, 64), True
    found, vals = [], []
    for k in range(4):
        q1 = ln.ws(p)
        q2 = ln.sym(q1)
        q = ln.ws(q2)
        terms += [p, q1, q2, q]
        sks.append(q1)
        nums.append(q)
        going = And(going, Not(Eq(ch(p), 0, 8)), Not(Eq(ln.numend(q, 0), q, 64)))
        found.append(going)
        vals.append(TR(ln.num(q, 0), 64, 32))
        p = ln.numend(q, 0)
    terms.append(p)
    count = 0
    for f in found:
        count = Add(count, If(f, 1, 0, 32), 32)
    ismem = And(memline, found[0])
    reglines = []
    for names, base, fp in ((NAMES, RG['R'], 0), (FNAMES, RG['FPR'], 1)):
        for i, nm in enumerate(names):
            reglines.append((And(*[Eq(ch(j), ord(c), 8) for j, c in enumerate(nm.ljust(15))]), base + 4 * i, fp and nm != 'fpscr'))
    raw1 = ln.fw(15)
    raw = ln.ws(raw1)
    israw = And(*[Eq(ch(Add(raw, i, 64)), ord(c), 8) for i, c in enumerate('(raw ')])

    def facts(s, kind):
        """the terms of the property that its facts are needed for"""
        if kind == G['MEMORY']:
            for t in terms:
                s.term('pos', bv(t, 64))
                s.term('scan', bv(t, 64))
            for t in sks:
                s.term2('sk', (bv(t, 64), bv(0, 32)))
            for t in nums:
                ln.numterms(s, t, bv(0, 32))
        elif kind == G['REGISTER']:
            for t in (bv(15, 64), raw1, raw):
                s.term('scan', bv(t, 64))
            for i in range(6):
                s.term('pos', bv(Add(raw, i, 64), 64))
            ln.numterms(s, bv(15, 64), bv(0, 32))
            ln.numterms(s, Add(raw, 5, 64), bv(0, 32))
        else:
            for t in terms[:4]:
                s.term('pos', bv(t, 64))
                s.term('scan', bv(t, 64))
            s.term2('sk', (bv(sks[0], 64), bv(0, 32)))
            ln.numterms(s, nums[1], bv(0, 32))
    st0 = st.copy()
    kinds = {}
    for s in r.call(st, PARSE, [Ptr(res, 0), Ptr(ln.obj, 0)]):
        chk = lambda c, nm: r.check(s, c, PARSE + ': ' + nm, P)
        chk(s.done[0] == 'ret', 'no error')
        chk(unchanged(r, st0, s, {res}), 'changes nothing else')
        rd = lambda f, w=4: ex.rd(s, res, ex.content(s, res), G[f] if isinstance(f, str) else f, w, False)
        ty = rd('type')
        if not isinstance(ty, int):
            raise Unsupported('undecided kind of line')
        kinds.setdefault(ty, []).append(s)
        facts(s, ty)
        if ty == G['MEMORY']:
            chk(ismem, 'a memory line has an address and a value')
            c = rd('count')
            chk(Eq(c, count, 32), 'the number of values')
            chk(Eq(rd('address'), TR(ln.num(0, 0), 64, 32), 32), 'the address')
            for k in range(4):
                v = rd(G['values'] + 4 * k)
                if isinstance(v, Poison):
                    v = fresh(32, 'unset')
                chk(Implies(found[k], Eq(v, vals[k], 32)), 'value %d' % k)
            continue
        chk(Not(ismem), 'a line with an address and values is a memory line')
        if ty == G['REGISTER']:
            off, v = rd('regoff', 8), rd('regval')
            if isinstance(off, int):
                m = [x for x in reglines if x[1] == off]
                chk(m[0][0] if m else False, 'the register is the one that the line names')
                fp = bool(m and m[0][2])
                if fp:
                    chk(Implies(israw, Eq(v, TR(ln.num(Add(raw, 5, 64), 0), 64, 32), 32)), 'a floating point register has its raw value')
                else:
                    chk(Eq(v, TR(ln.num(15, 0), 64, 32), 32), 'the value of the register')
            else:
                for c, o, fp in reglines:
                    chk(Implies(c, Eq(off, o, 64)), 'the register is the one that the line names')
                    chk(Implies(And(c, israw) if fp else c, Eq(v, TR(ln.num(Add(raw, 5, 64) if fp else 15, 0), 64, 32), 32)), 'the value of the register')
                chk(Or(*[c for c, o, fp in reglines]), 'only lines that name a register set one')
            continue
        chk(ty == G['OTHER'], 'the kind of the line')
        chk(Not(Or(*[c for c, o, fp in reglines])), 'a line that names a register sets it')
    r.cover(kinds.get(G['MEMORY'], []), 'four values', lambda s: And(found[3], Not(Eq(ln.sym(ln.ws(11)), ln.ws(11), 64))))
    r.cover(kinds.get(G['REGISTER'], []), 'register')
    r.cover(kinds.get(G['OTHER'], []), 'no value', lambda s: memline)


ASSUMPTIONS = [
    'lines (pieces returned by fgets) of at most 1023 characters, at most 2^28 of them; two passes read the same file contents',
    'dumped words do not reach the end of the address space; runs overlap neither each other nor older regions',
    'strtoul is an uninterpreted function of the text at its argument, with the axioms of vf/specs/gdblog.py (what it consumes, no digits = nothing consumed)',
    'character classes (isspace, isxdigit) are those of the C locale, taken from the C library when the check runs',
    'a floating-point register line without "(raw " has an unspecified register value',
    'the simulated memory is used through the contracts in vf/absmem.py, proved for the real code in the memsim units',
]

UNITS = [('runs', P, runs), ('skipWhitespace', P, scanner('skipWhitespace')), ('findWhitespace', P, scanner('findWhitespace')), ('skipSymbol', P, scanner('skipSymbol')),
         (HEXFN, P, hexdigit), ('parseLine', P, parseline), ('GdbLogParse', PA, parse)]
