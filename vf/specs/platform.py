"""C14, C15, C16, C22: mriPlatform.c, StandardIComm.c, MockDefaults.c (Console_*).

Contracts (proved for arbitrary contents of the register context and arbitrary results of the simulated memory):
  C16 Platform_Mem*: one access of the same width, address and value; returns its value, or 0 when it faults; returns normally,
      handler chain as before; fault noted until queried.
  C15 signal and fault text as functions of exceptionPSR and of the status registers read.
  C14 register packets as the byte sequences of the context.
  C22 frames of the inert callbacks; Comm functions forward to the communication interface."""
from ..target import *
from ..exc import *

MP = ['mriPlatform', 'try_catch']
INTS = dict(SIGINT=2, SIGSEGV=11, SIGBUS=7, SIGILL=4, SIGTRAP=5, SIGSTOP=19)
NREG, NFP = 19, 33
CTX = 4 + NREG * 4 + 4 + NFP * 4


class Plat:
    def __init__(self, name, props, log=None, contracts=None, mods=MP, fresh_start=False):
        con = {'__mriInit': lambda ex, st, a, ins: [(st, None)], '__mriDebugException': lambda ex, st, a, ins: [(st, None)]}
        con.update(contracts or {})
        self.P = props
        self.r = r = Run('platform/' + name, mods, con, props)
        self.ex = r.ex
        st = r.state()
        st.ghost['acc'] = ()
        st.ghost['out'] = Out()
        self.code0 = setup(r, st)
        self.mem = AMem(r, st, log='acc' if log else None)
        self.ctx = Obj('context', 'ext', CTX)
        self.f = z3.Function('ctx', z3.BitVecSort(64), z3.BitVecSort(8))
        st.mem[self.ctx] = Content({}, Store(lambda k: self.f(bv(k, 64)), 8, 'ctx'))
        if fresh_start:
            r.internals('mriPlatform')
        outs = r.call(st, 'mriPlatform_Init', [Ptr(self.ctx, 0), self.mem.p])
        if len(outs) != 1 or outs[0].done[0] != 'ret':
            raise Unsupported('mriPlatform_Init does not return once')
        self.st0 = outs[0]
        r.again(self.st0)

    def word(self, off):
        return concat_bytes([self.f(bv(off + i, 64)) for i in range(4)])

    def history(self, st):
        """any later state: every internal integer variable of mriPlatform.c is arbitrary"""
        m = self.r.mods['mriPlatform']
        for n, g in m.globals.items():
            if g['internal'] and not g['const']:
                self.havoc(st, m, n, g['ty'], 0)
        return st

    def havoc(self, st, m, n, t, off):
        t = m.resolve(t)
        if t.k == 'struct':
            for i, f in enumerate(t.fields):
                self.havoc(st, m, n, f, off + m.field_off(t, i))
        elif t.k == 'int':
            o = self.ex.gobj(m, n)
            self.ex.content(st, o)
            self.ex.wr(st, o, off, m.size(t), fresh(8 * m.size(t), n))

    def ret(self, outs, what):
        good = []
        for o in outs:
            if o.done[0] != 'ret':
                self.r.check(o, False, what + ' returns normally', self.P)
            else:
                good.append(o)
        self.r.cover(good, what)
        return good


# ---- C16 ------------------------------------------------------------------------------------------------
def c16():
    P = ('C16',)
    for d, w in [(d, w) for d in ('Read', 'Write') for w in (8, 16, 32)]:
        name = 'Platform_Mem%s%d' % (d, w)
        p = Plat(name, P, log=True)
        r, ex = p.r, p.ex
        st = p.history(p.st0)
        a64 = z3.BitVec('pv', 64)
        addr = S(z3.Extract(31, 0, a64))
        v = z3.BitVec('value', w)
        # what a query would say before
        q0 = p.ret(r.call(st, 'Platform_WasMemoryFaultEncountered', []), 'query')
        pre = [(st, None)]
        for s in q0:
            b0 = r.again(s)[1]
            # the same state, with the query result known
            s2 = st.copy()
            s2.pc = list(s.pc)
            s2.assume(S(bv(b0, 32) < 0x7fffffff))
            s2.assume(S(bv(b0, 32) >= 0))
            m = p.mem.miss[(d.lower(), w)](addr)
            args = [ex.int2ptr(a64)] + ([v] if d == 'Write' else [])
            for o in p.ret(r.call(s2, name, args), name):
                val = r.again(o)[1]
                acc = o.ghost['acc']
                ok = len(acc) == 1 and acc[0][0] == d.lower() and acc[0][1] == w
                r.check(o, ok, 'exactly one access of the same kind and width', P)
                if ok:
                    r.check(o, Eq(acc[0][2], addr, 32), 'the access is at the given address', P)
                    if d == 'Write':
                        r.check(o, Eq(acc[0][3], v, w), 'the given value is stored', P)
                if d == 'Read':
                    r.check(o, Implies(m, Eq(val, 0, w)), 'a faulting read returns zero', P)
                    r.check(o, Implies(Not(m), Eq(val, p.mem.val[w](addr), w)), 'a read returns what the memory holds', P)
                r.check(o, chain_ok(r, o), 'the handler chain is as before', P)
                mm = S(z3.BoolVal(True) if False else m)
                for o1 in p.ret(r.call(o, 'Platform_WasMemoryFaultEncountered', []), 'query'):
                    x = r.again(o1)[1]
                    r.check(o1, Implies(mm, Not(Eq(x, 0, 32))), 'a fault is recorded', P)
                    r.check(o1, Implies(Not(mm), Iff(Not(Eq(x, 0, 32)), Not(Eq(b0, 0, 32)))), 'without a fault the record is unchanged', P)
                    r.check(o1, chain_ok(r, o1), 'the query leaves the handler chain', P)
                    for o2 in p.ret(r.call(o1, 'Platform_WasMemoryFaultEncountered', []), 'query'):
                        r.check(o2, Eq(o2.done[1], 0, 32), 'the record is clear after the query', P)
    # a fresh session has no record
    p = Plat('init', P)
    for o in p.ret(p.r.call(p.st0, 'Platform_WasMemoryFaultEncountered', []), 'query'):
        p.r.check(o, Eq(o.done[1], 0, 32), 'no fault is recorded initially', P)


# ---- C15 ------------------------------------------------------------------------------------------------
def c15_signal():
    P = ('C15',)
    p = Plat('signal', P)
    st = p.history(p.st0)
    n = S(z3.Extract(7, 0, p.word(4 + NREG * 4)))
    want = INTS['SIGSTOP']
    for k, s in ((2, 'SIGINT'), (3, 'SIGSEGV'), (4, 'SIGSEGV'), (5, 'SIGBUS'), (6, 'SIGILL'), (12, 'SIGTRAP')):
        want = If(Eq(n, k, 8), INTS[s], want, 8)
    for o in p.ret(p.r.call(st, 'Platform_DetermineCauseOfException', []), 'signal'):
        p.r.check(o, Eq(o.done[1], want, 8), 'the signal is determined by the low eight bits of the PSR', P)


def pieces(ex, st, q):
    from ..libc import cstr
    c = cstr(ex, st, q)
    if c is None:
        raise Unsupported('text that is not a literal')
    return [t.strip() for t in c.decode('latin-1').split('\n') if t.strip()]


MEM_BITS = [(5, 'FP Lazy Preservation'), (4, 'Stacking Error'), (3, 'Unstacking Error'), (1, 'Data Access'), (0, 'Instruction Fetch')]
BUS_BITS = [(5, 'FP Lazy Preservation'), (4, 'Stacking Error'), (3, 'Unstacking Error'), (2, 'Imprecise Data Access'), (1, 'Precise Data Access'),
            (0, 'Instruction Prefetch')]
USE_BITS = [(9, 'Divide by Zero'), (8, 'Unaligned Access'), (3, 'Coprocessor Access'), (2, 'Invalid Exception Return State'), (1, 'Invalid State'),
            (0, 'Undefined Instruction')]


def bit(v, k):
    return S(z3.Extract(k, k, v) == 1)


def expected(p):
    m = p.mem
    val = lambda a: m.val[32](z3.BitVecVal(a, 32))
    ok = lambda a: Not(m.miss[('read', 32)](z3.BitVecVal(a, 32)))
    CFSR, HFSR, MMFAR, BFAR = 0xE000ED28, 0xE000ED2C, 0xE000ED34, 0xE000ED38
    n = S(z3.Extract(7, 0, p.word(4 + NREG * 4)))
    out = []

    def status(g, title, v, bits, faddr):
        g = And(g, ok(CFSR), Not(Eq(v, 0, 32)))
        out.append((g, ('s', title)))
        out.append((g, ('s', 'Status Register:')))
        out.append((g, ('h', v)))
        if faddr:
            ga = And(g, bit(v, 7), ok(faddr))
            out.append((ga, ('s', 'Fault Address:')))
            out.append((ga, ('h', val(faddr))))
        for (b, t) in bits:
            out.append((And(g, bit(v, b)), ('s', t)))
    c = val(CFSR)
    mv = S(c & 0xFF)
    bvv = S(z3.LShR(c, 8) & 0xFF)
    uv = S(z3.LShR(c, 16))
    hard = Eq(n, 3, 8)
    out.append((hard, ('s', '**Hard Fault**')))
    h = And(hard, ok(HFSR))
    hv = val(HFSR)
    out.append((h, ('s', 'Status Register:')))
    out.append((h, ('h', hv)))
    out.append((And(h, bit(hv, 31)), ('s', 'Debug Event')))
    out.append((And(h, bit(hv, 1)), ('s', 'Vector Table Read')))
    fo = And(h, bit(hv, 30))
    out.append((fo, ('s', 'Forced')))
    status(Or(fo, Eq(n, 4, 8)), '**MPU Fault**', mv, MEM_BITS, MMFAR)
    status(Or(fo, Eq(n, 5, 8)), '**Bus Fault**', bvv, BUS_BITS, BFAR)
    status(Or(fo, Eq(n, 6, 8)), '**Usage Fault**', uv, USE_BITS, None)
    return out


class Script:
    """the output follows a script of guarded lines: ghost position in the script, advanced by every piece of output"""
    def __init__(self, want, P, key='pos'):
        self.want = want
        self.P = P
        self.key = key

    def start(self, st):
        st.ghost[self.key] = 0

    def emit(self, ex, st, e):
        pos = st.ghost[self.key]
        ok, new = False, None
        skip = True              # no due line between the position and i
        for i, (c, w) in enumerate(self.want):
            here = S(z3.ULE(bv(pos, 8), bv(i, 8))) if not isinstance(pos, int) else pos <= i
            if w[0] == e[0] and (w[0] == 'h' or w[1] == e[1]):
                g = And(here, c, skip, Eq(w[1], e[1], 32) if w[0] == 'h' else True)
                if g is not False and ex.feasible(st, g):
                    ok = Or(ok, g)
                    new = i + 1 if new is None else If(g, i + 1, new, 8)
            skip = And(skip, Implies(here, Not(c)))
        ex.oblige(st, ok, "%s is due here" % ("'%s'" % e[1] if e[0] == 's' else 'this value'), self.P)
        st.ghost[self.key] = pos if new is None else new

    def finish(self, r, st):
        pos = st.ghost[self.key]
        left = []
        for i, (c, w) in enumerate(self.want):
            here = S(z3.ULE(bv(pos, 8), bv(i, 8))) if not isinstance(pos, int) else pos <= i
            left.append(Not(And(here, c)))
        r.check(st, And(*left), 'everything due is shown', self.P)


def c15_text():
    P = ('C15',)

    def w_str(ex, st, a, ins):
        for t in pieces(ex, st, a[0]):
            sc.emit(ex, st, ('s', t))
        return [(st, None)]

    def w_hex(ex, st, a, ins):
        sc.emit(ex, st, ('h', a[0]))
        return [(st, None)]
    for n in (3, 4, 5, 6, None):
        p = Plat('text%s' % (n or ''), P, contracts={'WriteStringToGdbConsole': w_str, 'WriteHexValueToGdbConsole': w_hex})
        p.ex.ghostw = dict(p.ex.ghostw, pos=8)
        st = p.history(p.st0)
        e = S(z3.Extract(7, 0, p.word(4 + NREG * 4)))
        if n:
            st.assume(e == n)
        else:
            st.assume(And(*[Not(Eq(e, k, 8)) for k in (3, 4, 5, 6)]))
        dec = lambda c: p.ex.decide(st, c)
        sc = Script([(dec(c), w) for c, w in expected(p) if dec(c) is not False], P)
        sc.start(st)
        outs = p.ret(p.r.call(st, 'Platform_DisplayFaultCauseToGdbConsole', []), 'fault text')
        for o in outs:
            p.r.check(o, chain_ok(p.r, o), 'the handler chain is as before', P)
            sc.finish(p.r, o)


# ---- C14 ------------------------------------------------------------------------------------------------
def c14():
    P = ('C14',)

    def wbyte(ex, st, a, ins):
        if not (isinstance(a[0], Ptr) and a[0].b is BUF[0]):
            ex.oblige(st, False, 'the given buffer is used', P)
        st.ghost['pkt'] = st.ghost['pkt'] + (('b', a[1]),)
        return [(st, None)]

    def wchar(ex, st, a, ins):
        st.ghost['pkt'] = st.ghost['pkt'] + (('c', a[1]),)
        return [(st, None)]

    def rbyte(ex, st, a, ins):
        b = z3.BitVec('in%d' % len(st.ghost['pkt']), 8)
        st.ghost['pkt'] = st.ghost['pkt'] + (('r', b),)
        return [(st, b)]
    BUF = [None]
    con = {'Buffer_WriteByteAsHex': wbyte, 'Buffer_WriteChar': wchar, 'Buffer_ReadByteAsHex': rbyte}
    for fn in ('Platform_CopyContextToBuffer', 'Platform_CopyContextFromBuffer', 'Platform_WriteTResponseRegistersToBuffer',
               'Platform_GetTargetXml'):
        p = Plat(fn, P, contracts=con)
        r = p.r
        st = p.history(p.st0)
        BUF[0] = Obj('buffer', 'ext', 24)
        st.mem[BUF[0]] = Content({}, uf_store('bufferFields', 8, 64))
        st.ghost['pkt'] = ()
        fp = bit(p.word(0), 0)
        if fn == 'Platform_GetTargetXml':
            from ..libc import cstr
            for o in p.ret(r.call(st, fn, []), fn):
                v = r.again(o)[1]
                t = cstr(r.ex, o, v, 20000)
                if t is None:
                    r.check(o, False, 'the target description is a constant text', P)
                    continue
                import re
                names = re.findall(rb'<reg name="(\w+)" bitsize="(\d+)"', t)
                base = [b'r%d' % i for i in range(13)] + [b'sp', b'lr', b'pc', b'xpsr', b'msp', b'psp']
                fpn = [b'd%d' % i for i in range(16)] + [b'fpscr']
                plain = names == [(n, b'32') for n in base] and b'arm.vfp' not in t
                full = names == [(n, b'32') for n in base] + [(n, b'64') for n in fpn[:16]] + [(fpn[16], b'32')] and b'arm.vfp' in t
                well = t.startswith(b'<?xml') and t.count(b'<feature') == t.count(b'</feature>') and t.rstrip().endswith(b'</target>')
                r.check(o, well, 'the target description is complete', P)
                r.check(o, Implies(fp, full), 'with floating point registers the description lists them all', P)
                r.check(o, Implies(Not(fp), plain), 'without floating point registers the description lists none', P)
                for o2 in p.ret(r.call(o, 'Platform_GetTargetXmlSize', []), 'size'):
                    r.check(o2, Eq(o2.done[1], len(t), 32), 'the size is that of the description', P)
            continue
        for o in p.ret(r.call(st, fn, [Ptr(BUF[0], 0)]), fn):
            r.again(o)
            pk = o.ghost['pkt']
            R = [p.f(bv(4 + i, 64)) for i in range(4 * NREG)]
            F = [p.f(bv(4 + 4 * NREG + 4 + i, 64)) for i in range(4 * NFP)]
            if fn == 'Platform_CopyContextToBuffer':
                def seq(want):
                    return len(pk) == len(want) and And(*[And(x[0] == 'b', Eq(x[1], y, 8)) for x, y in zip(pk, want)])
                r.check(o, Implies(fp, seq(R + F)), 'all integer then all floating point registers are written, little-endian', P)
                r.check(o, Implies(Not(fp), seq(R)), 'only the integer registers are written, little-endian', P)
                r.check(o, unchanged(r, st, o), 'sending changes nothing', P)
            elif fn == 'Platform_WriteTResponseRegistersToBuffer':
                want = []
                for n in (12, 13, 14, 15):
                    want += [('b', n), ('c', ord(':'))] + [('b', R[4 * n + i]) for i in range(4)] + [('c', ord(';'))]
                ok = len(pk) == len(want) and And(*[And(x[0] == y[0], Eq(x[1], y[1], 8)) for x, y in zip(pk, want)])
                r.check(o, ok, 'the stop reply carries registers 12-15 with their values', P)
                r.check(o, unchanged(r, st, o), 'sending changes nothing', P)
            else:
                n = len(pk)
                r.check(o, all(x[0] == 'r' for x in pk), 'receiving writes nothing to the packet', P)
                r.check(o, Implies(fp, n == 4 * NREG + 4 * NFP), 'all registers are read when floating point is flagged', P)
                r.check(o, Implies(Not(fp), n == 4 * NREG), 'only integer registers are read otherwise', P)
                c = r.ex.content(o, p.ctx)
                for i in range(CTX):
                    b = r.ex.rd_byte(c, i)
                    w = p.f(bv(i, 64))
                    if 4 <= i < 4 + 4 * NREG:
                        w = z3.BitVec('in%d' % (i - 4), 8)
                    j = i - (4 + 4 * NREG + 4)
                    if j >= 0:
                        w = If(fp, z3.BitVec('in%d' % (4 * NREG + j), 8), w, 8)
                    r.check(o, is_int(b) and Eq(b, w, 8), 'exactly the received registers change', P)
                r.check(o, unchanged(r, st, o, but=(p.ctx,)), 'receiving changes only the context', P)


# ---- C22 ------------------------------------------------------------------------------------------------
def c22_inert():
    P = ('C22',)
    b32 = lambda n: z3.BitVec(n, 32)
    INERT = [('Platform_EnableSingleStep', [], None), ('Platform_DisableSingleStep', [], None), ('Platform_IsSingleStepping', [], 0),
             ('Platform_SetProgramCounter', [b32('newPC')], None), ('Platform_AdvanceProgramCounterToNextInstruction', [], None),
             ('Platform_SetHardwareBreakpoint', [b32('a'), b32('k')], None), ('Platform_ClearHardwareBreakpoint', [b32('a'), b32('k')], None),
             ('Platform_SetHardwareWatchpoint', [b32('a'), b32('k'), b32('t')], None),
             ('Platform_ClearHardwareWatchpoint', [b32('a'), b32('k'), b32('t')], None),
             ('Platform_TypeOfCurrentInstruction', [], 0), ('Platform_GetSemihostCallParameters', [], 'agg'),
             ('Platform_SetSemihostCallReturnAndErrnoValues', [b32('v'), b32('e')], None),
             ('Semihost_IsDebuggeeMakingSemihostCall', [], 0), ('Semihost_HandleSemihostRequest', [], 0),
             ('Platform_EnteringDebugger', [], None), ('Platform_LeavingDebugger', [], None),
             ('__mriPlatform_EnteringDebuggerHook', [], None), ('__mriPlatform_LeavingDebuggerHook', [], None),
             ('Platform_CommCausedInterrupt', [], 0), ('Platform_CommClearInterrupt', [], None), ('Platform_CommSharingWithApplication', [], 0),
             ('Platform_CommPrepareToWaitForGdbConnection', [], None), ('Platform_CommWaitForReceiveDataToStop', [], None),
             ('Platform_WasProgramCounterModifiedByUser', [], 1), ('Platform_Init', [NULL], None)]
    for fn, args, want in INERT:
        p = Plat(fn, P, log=True)
        r = p.r
        st = p.history(p.st0)
        m, f = r.func(fn)
        if want == 'agg' and f.params and f.params[0][2] is not None and 'sret' in f.params[0][1]:
            o_ = Obj('result', 'ext', 16)
            st.mem[o_] = Content({}, uf_store('result', 8, 64))
            outs = p.ret(r.call(st, fn, [Ptr(o_, 0)]), fn)
            for o in outs:
                r.again(o)
                v = r.ex.rd(o, o_, r.ex.content(o, o_), 0, 16, False)
                r.check(o, Eq(v, 0, 128), fn + ' reports nothing', P)
                r.check(o, unchanged(r, st, o, but=(o_,)), fn + ' changes nothing', P)
            continue
        for o in p.ret(r.call(st, fn, args), fn):
            v = r.again(o)[1]
            r.check(o, unchanged(r, st, o), fn + ' changes nothing', P)
            r.check(o, o.ghost['acc'] == (), fn + ' does not touch the simulated memory', P)
            if want == 'agg':
                vals = v.vals if isinstance(v, Agg) else [v]
                z = True
                for x in vals:
                    z = And(z, is_int(x) and (Eq(x, 0, x.size() if isinstance(x, z3.ExprRef) else 64)))
                r.check(o, z, fn + ' reports nothing', P)
            elif want is not None:
                r.check(o, Eq(v, want, 32) if want == 0 else Not(Eq(v, 0, 32)), fn + ' reports that nothing happened', P)


def mkcomm(p, st, log):
    """arbitrary communication interface"""
    r, ex = p.r, p.ex
    obj = Obj('comm', 'ext', 64)
    vt = Obj('commVTable', 'ext', 40)
    names = ['hasReceiveData', 'receiveChar', 'sendChar', 'shouldStopRun', 'isGdbConnected']
    st.mem[vt] = Content({8 * i: (8, ex.func_ptr('comm_' + n)) for i, n in enumerate(names)}, None)
    st.mem[obj] = Content({0: (8, Ptr(vt, 0))}, uf_store('commPrivate', 8, 64))

    def mk(n):
        def h(ex, st, a, ins):
            v = z3.BitVec('comm_%s_result' % n, 32)
            st.ghost['comm'] = st.ghost['comm'] + ((n, tuple(a), v),)
            return [(st, None if n == 'sendChar' else v)]
        return h
    for n in names:
        ex.contracts['comm_' + n] = mk(n)
    return obj


def c22_comm():
    P = ('C22',)
    for fn, args, target in (('Platform_CommHasReceiveData', [], 'hasReceiveData'), ('Platform_CommReceiveChar', [], 'receiveChar'),
                             ('Platform_CommSendChar', [z3.BitVec('character', 32)], 'sendChar'),
                             ('Platform_CommIsWaitingForGdbToConnect', [], 'isGdbConnected')):
        p = Plat(fn, P, log=True)
        r = p.r
        st = p.st0
        st.ghost['comm'] = ()
        obj = mkcomm(p, st, 'comm')
        # the debugger core runs inside mriPlatform_Run, once
        inner = []

        def core(ex, s, a, ins, inner=inner):
            s2 = s.copy()
            s2.frames = []
            s2.done = None
            inner.append(s2)
            return [(s, None)]
        r.ex.contracts['__mriDebugException'] = core

        def stop(ex, s, a, ins):
            return [(s, 1)]
        r.ex.contracts['comm_shouldStopRun'] = stop
        p.ret(r.call(st, 'mriPlatform_Run', [Ptr(obj, 0)]), 'mriPlatform_Run')
        r.check(st, len(inner) >= 1, 'the debugger core is entered', P)
        s0 = p.history(inner[0])
        for o in p.ret(r.call(s0, fn, args), fn):
            v = r.again(o)[1]
            c = o.ghost['comm']
            ok = len(c) == 1 and c[0][0] == target and isinstance(c[0][1][0], Ptr) and c[0][1][0].b is obj and c[0][1][0].off == 0 and \
                len(c[0][1]) == 1 + len(args)
            r.check(o, ok, '%s asks the communication interface once' % fn, P)
            if ok and args:
                r.check(o, Eq(c[0][1][1], args[0], 32), 'the byte is passed unchanged', P)
            if ok and not args:
                if target == 'receiveChar':
                    r.check(o, Eq(v, c[0][2], 32), 'the byte is passed unchanged', P)
                elif target == 'isGdbConnected':
                    r.check(o, Iff(Eq(v, 0, 32), Not(Eq(c[0][2], 0, 32))), 'waiting means not connected', P)
                else:
                    r.check(o, Iff(Eq(v, 0, 32), Eq(c[0][2], 0, 32)), 'data availability is passed', P)
            r.check(o, unchanged(r, s0, o), fn + ' changes nothing', P)


IC = ['StandardIComm', 'try_catch']
VT = ['hasReceiveData', 'receiveChar', 'sendChar', 'shouldStopRun', 'isGdbConnected']


class Comm:
    """StandardIComm.c over the console contract: each console function returns any value or throws any exception"""
    def __init__(self, name, P):
        self.P = P

        def con(n, void=False):
            def h(ex, st, a, ins):
                v = z3.BitVec('result_%s_%d' % (n, len(st.ghost['con'])), 32)
                s2 = st.copy()
                st.ghost['con'] = st.ghost['con'] + ((n, tuple(a), v, True),)
                s2.ghost['con'] = s2.ghost['con'] + ((n, tuple(a), None, False),)
                c = fresh(32, 'code')
                s2.assume(c > 0)
                return [(st, None if void else v), ex.throw(s2, c)]
            return h
        self.r = r = Run('comm/' + name, IC, {'Console_HasStdInDataToRead': con('has'), 'Console_ReadStdIn': con('read'),
                                              'Console_WriteStdOut': con('write', True)}, P)
        st = r.state()
        st.ghost['con'] = ()
        setup(r, st)
        r.internals('StandardIComm')(st)
        outs = r.call(st, 'StandardIComm_Init', [])
        if len(outs) != 1 or outs[0].done[0] != 'ret':
            raise Unsupported('StandardIComm_Init does not return once')
        self.st = outs[0]
        self.p = r.again(self.st)[1]

    def op(self, st, n, args=()):
        r, ex = self.r, self.r.ex
        m = r.mods['StandardIComm']
        vt = ex.rd(st, self.p.b, ex.content(st, self.p.b), self.p.off, 8, True)
        if not isinstance(vt, Ptr):
            raise Unsupported('no interface table')
        f = ex.rd(st, vt.b, ex.content(st, vt.b), vt.off + 8 * VT.index(n), 8, True)
        s = st.copy()
        s.ghost['con'] = ()
        return r.callp(s, f, [self.p] + list(args))


def c22_session():
    """the packet buffer, the connection setting and the life of a session"""
    P = ('C22',)
    b32 = lambda n: z3.BitVec(n, 32)
    # the buffer the debugger core is handed has the size it is told, and is nothing else's memory
    p = Plat('packet buffer', P, log=True)
    r, ex = p.r, p.ex
    st = p.history(p.st0)
    for s in p.ret(r.call(st, 'Platform_GetPacketBuffer', []), 'Platform_GetPacketBuffer'):
        buf = r.again(s)[1]
        r.check(s, unchanged(r, st, s), 'asking for the packet buffer changes nothing', P)
        for o in p.ret(r.call(s, 'Platform_GetPacketBufferSize', []), 'Platform_GetPacketBufferSize'):
            n = r.again(o)[1]
            r.check(o, unchanged(r, s, o), 'asking for its size changes nothing', P)
            r.check(o, isinstance(buf, Ptr) and buf.b not in (NULLOBJ, p.ctx), 'there is a packet buffer', P)
            r.check(o, Not(Eq(n, 0, 32)), 'the packet buffer has room', P)
            try:
                ex.access_range(o, buf, ZX(n, 32, 64), 'store')
            except PathEnd:
                continue
            # what the core does with it shows up nowhere else
            o2 = o.copy()
            ex.content(o2, buf.b)
            o2.mem[buf.b] = Content({}, uf_store('packet', 8, 64))
            r.check(o2, unchanged(r, o, o2, but=(buf.b,)), 'the packet buffer is a buffer of its own', P)
            for fn in ('Platform_WasMemoryFaultEncountered', 'Platform_CommShouldWaitForGdbConnect'):
                for x in p.ret(r.call(o, fn, []), fn):
                    for y in p.ret(r.call(o2, fn, []), fn):
                        r.check(y, Eq(x.done[1], y.done[1], 32), 'the contents of the packet buffer do not matter', P)
    # whether to wait for a connection is what was set; at first, yes
    p = Plat('waiting', P, log=True, fresh_start=True)
    r = p.r
    for o in p.ret(r.call(p.st0, 'Platform_CommShouldWaitForGdbConnect', []), 'Platform_CommShouldWaitForGdbConnect'):
        r.check(o, Not(Eq(r.again(o)[1], 0, 32)), 'the debugger waits for a connection at first', P)
        r.check(o, unchanged(r, p.st0, o), 'asking whether to wait changes nothing', P)
    st = p.history(p.st0)
    v = b32('setting')
    for s in p.ret(r.call(st, 'mriPlatform_setWaitForGdbConnect', [v]), 'mriPlatform_setWaitForGdbConnect'):
        r.again(s)
        for o in p.ret(r.call(s, 'Platform_CommShouldWaitForGdbConnect', []), 'Platform_CommShouldWaitForGdbConnect'):
            r.check(o, Iff(Eq(r.again(o)[1], 0, 32), Eq(v, 0, 32)), 'the debugger waits as it was set', P)
        for fn in ('Platform_WasMemoryFaultEncountered',):
            for x in p.ret(r.call(st, fn, []), fn):
                for y in p.ret(r.call(s, fn, []), fn):
                    r.check(y, Implies(And(*x.pc), Eq(x.done[1], y.done[1], 32)), 'the setting affects nothing else', P)
    # the core runs again, on the same interface, until that asks to stop
    for first in (True, False):
        p = Plat('run', P, log=True)
        r, ex = p.r, p.ex
        st = p.st0 if first else p.history(p.st0)
        obj = mkcomm(p, st, 'comm')
        ex.try_unroll = 3
        st.ghost['comm'] = ()
        st.ghost['core'] = 0
        entry = []

        def core(ex, s, a, ins):
            k = s.ghost['core']
            c = s.ghost['comm']
            s.ghost['comm'] = ()
            s.ghost['core'] = k + 1
            ex.oblige(s, len(c) == (1 if k else 0), 'the interface is asked once after each run of the core', P)
            if k and len(c) == 1:
                ex.oblige(s, c[0][0] == 'shouldStopRun' and isinstance(c[0][1][0], Ptr) and c[0][1][0].b is obj, 'the interface given is asked', P)
                ex.oblige(s, Eq(c[0][2], 0, 32), 'the core runs again only when not asked to stop', P)
            e = s.copy()
            e.frames = []
            e.done = None
            if not ex.silent:
                entry.append(e)
            return [(s, None)] if k == 0 else []
        ex.contracts['__mriDebugException'] = core
        outs = p.ret(r.call(st, 'mriPlatform_Run', [Ptr(obj, 0)]), 'mriPlatform_Run')
        for o in outs:
            c = o.ghost['comm']
            r.check(o, len(c) == 1 and c[0][0] == 'shouldStopRun' and c[0][1][0].b is obj, 'the interface is asked whether to stop', P)
            if len(c) == 1:
                r.check(o, Not(Eq(c[0][2], 0, 32)), 'a session ends only when asked to stop', P)
        r.check(st, len(entry) == 2 and [e.ghost['core'] for e in entry] == [1, 2], 'the core is entered, and entered again', P)
        if len(entry) == 2:
            r.check(entry[1], unchanged(r, entry[0], entry[1]), 'the core is entered again as it was left', P)


def c22_icomm():
    P = ('C22',)
    c = Comm('history', P)
    r, ex = c.r, c.r.ex
    clean = lambda s: (r.g('g_exceptionMessage'), r.g('g_exceptionCode'))
    fresh_st = c.st
    # the state once a byte has been received
    recv = [s for s in c.op(fresh_st, 'receiveChar') if s.done[0] == 'ret']
    if not recv:
        r.check(fresh_st, False, 'receiving returns', P)
        return
    got = recv[0]
    r.again(got)
    r.cover([got], 'a byte is received')
    for st, connected in ((fresh_st, False), (got, True)):
        for o in c.op(st, 'hasReceiveData'):
            if o.done[0] != 'ret':
                r.check(o, False, 'an error while polling does not escape', P)
                continue
            v = r.again(o)[1]
            k = o.ghost['con']
            ok = len(k) == 1 and k[0][0] == 'has'
            r.check(o, ok, 'polling asks the console once', P)
            if ok and k[0][3]:
                r.check(o, Iff(Eq(v, 0, 32), Eq(k[0][2], 0, 32)), 'data is reported iff waiting', P)
            elif ok:
                r.check(o, Eq(v, 0, 32), 'an error while polling counts as no data', P)
                r.check(o, Eq(code(r, o), 0, 32), 'an error while polling leaves no exception behind', P)
            r.check(o, chain_ok(r, o), 'the handler chain is as before', P)
            r.check(o, unchanged(r, st, o, but=clean(o)), 'polling changes nothing', P)
        for o in c.op(st, 'isGdbConnected'):
            if o.done[0] != 'ret':
                r.check(o, False, 'an error while polling does not escape', P)
                continue
            v = r.again(o)[1]
            k = o.ghost['con']
            data = any(True for x in k) and Or(*[And(x[0] == 'has' and x[3], Not(Eq(x[2], 0, 32)) if x[3] else False) for x in k])
            r.check(o, all(x[0] == 'has' for x in k), 'asking for the connection consumes nothing', P)
            if connected:
                r.check(o, Not(Eq(v, 0, 32)), 'connected once a byte has been received', P)
            else:
                r.check(o, Iff(Not(Eq(v, 0, 32)), data), 'before the first byte, connected means that data is waiting', P)
            r.check(o, chain_ok(r, o), 'the handler chain is as before', P)
            r.check(o, unchanged(r, st, o, but=clean(o)), 'asking for the connection changes nothing', P)
        for o in c.op(st, 'receiveChar'):
            k = o.ghost['con']
            if o.done[0] != 'ret':
                r.check(o, len(k) == 1 and k[0][0] == 'read' and not k[0][3], 'receiving fails only when the console does', P)
                r.check(o, chain_ok(r, o), 'the handler chain is as before', P)
                o.done = None
                r.check(o, unchanged(r, st, o, but=clean(o)), 'a failed receive establishes no connection', P)
                continue
            v = r.again(o)[1]
            ok = len(k) == 1 and k[0][0] == 'read' and k[0][3]
            r.check(o, ok, 'receiving takes exactly one byte', P)
            if ok:
                r.check(o, Eq(TR(v, 32, 8), TR(k[0][2], 32, 8), 8), 'the byte received is the byte read', P)
            r.check(o, unchanged(r, got, o, but=clean(o)), 'receiving only establishes the connection', P)
        ch = z3.BitVec('character', 32)
        for o in c.op(st, 'sendChar', [ch]):
            k = o.ghost['con']
            ok = len(k) == 1 and k[0][0] == 'write'
            r.check(o, ok, 'sending writes exactly once', P)
            if ok:
                r.check(o, Eq(TR(k[0][1][0], 32, 8), TR(ch, 32, 8), 8), 'the byte written is the byte sent', P)
            if o.done[0] != 'ret':
                r.check(o, ok and not k[0][3], 'sending fails only when the console does', P)
            o.done = None
            r.check(o, chain_ok(r, o), 'the handler chain is as before', P)
            r.check(o, unchanged(r, st, o, but=clean(o)), 'sending changes nothing', P)
        s_ = st.copy()
        s_.ghost['con'] = ()
        for o in r.call(s_, 'StandardIComm_Uninit', [c.p]):
            r.check(o, o.done[0] == 'ret', 'releasing the interface returns', P)
            o.done = None
            r.check(o, len(o.ghost['con']) == 0 and unchanged(r, st, o), 'releasing the interface changes nothing', P)
        for o in c.op(st, 'shouldStopRun'):
            r.check(o, o.done[0] == 'ret', 'asking to stop returns', P)
            r.again(o)
            r.check(o, len(o.ghost['con']) == 0, 'asking to stop consumes nothing', P)
            r.check(o, unchanged(r, st, o), 'asking to stop changes nothing', P)


def c22_console():
    P = ('C22',)

    def ev(st, *e):
        st.ghost['io'] = st.ghost['io'] + (e,)

    def h_read(ex, st, a, ins):
        ex.oblige(st, And(Eq(a[0], 0, 32), Eq(a[2], 1, 64)), 'one byte of the standard input is requested', P)
        s2, s3 = st.copy(), st.copy()
        b = z3.BitVec('in', 8)
        ex.write_range(st, a[1], 1, lambda k: b)
        ev(st, 'read', b)
        ev(s2, 'eof')
        ev(s3, 'fail')
        return [(st, 1), (s2, 0), (s3, mask(-1, 64))]

    def h_write(ex, st, a, ins):
        ex.oblige(st, And(Eq(a[0], 1, 32), Eq(a[2], 1, 64)), 'one byte is written to the standard output', P)
        s2 = st.copy()
        b = ex.load(st, a[1], ir_int8, libm)[0][1]
        ev(st, 'write', b)
        ev(s2, 'fail')
        return [(st, 1), (s2, mask(-1, 64))]

    def h_select(ex, st, a, ins):
        ex.oblige(st, Eq(a[0], 1, 32), 'only the standard input is polled', P)
        ok = all(isinstance(p, Ptr) and p.b is NULLOBJ for p in a[2:4])
        ex.oblige(st, ok, 'only reading is polled', P)
        bits = ex.load(st, a[1], ir_int8, libm)[0][1]
        ex.oblige(st, is_int(bits) and Eq(S(z3.Extract(0, 0, bv(bits, 8))), 1, 1), 'the standard input is polled', P)
        tmo = a[4]
        z = isinstance(tmo, Ptr) and tmo.b is not NULLOBJ
        ex.oblige(st, z, 'polling does not wait', P)
        if z:
            for k in (0, 8):
                v = ex.load(st, padd(tmo, k), ir_int64, libm)[0][1]
                ex.oblige(st, is_int(v) and Eq(v, 0, 64), 'polling does not wait', P)
        v = z3.BitVec('selected', 32)
        s2 = st.copy()
        st.assume(And(v >= 0, v <= 1))
        ev(st, 'select', v)
        ev(s2, 'fail')
        return [(st, v), (s2, mask(-1, 32))]
    from ..libc import INT8 as ir_int8, INT64 as ir_int64, None_mod as libm
    ch = z3.BitVec('character', 32)
    for fn, args in (('Console_HasStdInDataToRead', []), ('Console_ReadStdIn', []), ('Console_WriteStdOut', [ch])):
        r = Run('console/' + fn, ['MockDefaults', 'try_catch'], {'read': h_read, 'write': h_write, 'select': h_select}, P)
        st = r.state()
        st.ghost['io'] = ()
        setup(r, st)
        outs = r.call(st, fn, args)
        r.cover(outs, fn)
        for o in outs:
            io = o.ghost['io']
            r.check(o, len(io) == 1, 'one request', P)
            if len(io) != 1:
                continue
            thrown = o.done[0] != 'ret'
            r.check(o, thrown == (io[0][0] == 'fail'), 'an error is thrown exactly when the request fails', P)
            v = None if thrown else o.done[1]
            o.done = None
            r.check(o, chain_ok(r, o), 'the handler chain is as before', P)
            if thrown:
                r.check(o, Not(Eq(code(r, o), 0, 32)), 'the error has a code', P)
            elif io[0][0] == 'read':
                r.check(o, Eq(TR(v, 32, 8), io[0][1], 8), 'the byte read is returned', P)
            elif io[0][0] == 'write':
                r.check(o, Eq(io[0][1], TR(ch, 32, 8), 8), 'the byte given is written', P)
            elif io[0][0] == 'select':
                r.check(o, Iff(Eq(v, 0, 32), Eq(io[0][1], 0, 32)), 'data is reported iff waiting', P)


ASSUMPTIONS = [
    'the packet buffer functions and the console output of mri (absent submodule) are recorded calls: stubs/include declares them',
    'fewer than 2^31-1 faults between two queries',
]

UNITS = [('c14', ('C14',), c14), ('c15_signal', ('C15',), c15_signal), ('c15_text', ('C15',), c15_text), ('c16', ('C16',), c16),
         ('c22_inert', ('C22',), c22_inert), ('c22_comm', ('C22',), c22_comm), ('c22_session', ('C22',), c22_session),
         ('c22_icomm', ('C22',), c22_icomm), ('c22_console', ('C22',), c22_console)]
