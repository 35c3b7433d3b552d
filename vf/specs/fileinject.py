"""C21: FileFailureInject.c.  Every mock is specified by a contract over the countdowns; see the checks."""
from ..target import *
from ..fams import StrFam, ArrFam

P = ('C21',)
T = 'FileFailureInject'
HOOKS = {'fopen': 2, 'fclose': 1, 'fseek': 3, 'ftell': 1, 'fwrite': 4, 'fread': 4, 'fgets': 3}
WIDTH = {'fopen': 'p', 'fclose': 32, 'fseek': 32, 'ftell': 64, 'fwrite': 64, 'fread': 64, 'fgets': 'p'}


def real(name):
    def h(ex, st, a, ins):
        w = WIDTH[name]
        r = Ptr(Obj(fresh_name('real'), 'ext', 1), 0) if w == 'p' else fresh(w, 'real_' + name)
        log(st, name, tuple(a), r)
        return [(st, r)]
    return h


def strncpy(ex, st, a, ins):
    """dst[i] = i < strlen(src) ? src[i] : 0 for all i < n"""
    d, s, n = a
    if not (isinstance(s, Ptr) and isinstance(s.b, StrFam) and isinstance(s.off, int) and s.off == 0):
        raise Unsupported('strncpy of an unknown string')
    L = s.b.length(st, s.i)
    ch = s.b.ch
    ex.write_range(st, d, n, lambda k: If(ULT(k, L, 64), ch(bv(s.i, 32), bv(k, 64)), 0, 8))
    return [(st, d)]


def strlen(ex, st, a, ins):
    s = a[0]
    if isinstance(s, Ptr) and isinstance(s.b, StrFam) and isinstance(s.off, int) and s.off == 0:
        return [(st, s.b.length(st, s.i))]
    raise Unsupported('strlen')


CON = {n: real(n) for n in HOOKS}
CON['strncpy'] = strncpy
CON['strlen'] = strlen
ARGW = {'fopen': ('p', 'p'), 'fclose': ('p',), 'fseek': ('p', 64, 32), 'ftell': ('p',), 'fwrite': ('p', 64, 64, 'p'),
        'fread': ('p', 64, 64, 'p'), 'fgets': ('p', 32, 'p')}


def args_for(name):
    return [Ptr(Obj('arg%d' % i, 'ext', 1), 0) if w == 'p' else z3.BitVec('arg%d' % i, w) for i, w in enumerate(ARGW[name])]


class S21:
    def __init__(self):
        self.runs = []

    def mk(self):
        r = Run('fileinject', [T], dict(CON), P)
        self.runs.append(r)
        st = r.state()
        # any state of the module: hooks real or mock, countdowns arbitrary
        for h in HOOKS:
            r.gset(st, 'hook_' + h, r.ex.func_ptr(h), 8)
        return r, st

    def hook(self, r, st, n):
        p = r.gget(st, 'hook_' + n, 8, 0, True)
        return p if isinstance(p, Ptr) and p.off == 0 and p.b.kind == 'func' else None

    def others(self, r, s0, s, own, what):
        """no other hook changes"""
        for h in HOOKS:
            if h != own:
                a, b = r.gget(s0, 'hook_' + h, 8, 0, True), r.gget(s, 'hook_' + h, 8, 0, True)
                r.check(s, same_val(a, b), '%s leaves %s alone' % (what, h), P)

    def calls(self, r, st, n, args):
        p = self.hook(r, st, n)
        if p is None:
            r.check(st, False, 'hook_%s designates a function' % n, P)
            return []
        before = len(st.ghost['log'])
        outs = []
        for s in r.callp(st, p, list(args)):
            if s.done[0] != 'ret':
                r.check(s, False, n + ' returns', P)
                continue
            v = s.done[1]
            r.again(s)
            outs.append((s, v, s.ghost['log'][before:]))
        return outs

    def is_forward(self, r, s, v, lg, n, args):
        ok = len(lg) == 1 and lg[0][0] == n and len(lg[0][1]) == len(args) and all(same_val(x, y) for x, y in zip(lg[0][1], args))
        return bool(ok and same_val(v, lg[0][2]))

    def seq(self, r, st, fn, args=()):
        outs = r.call(st, fn, list(args))
        res = []
        for s in outs:
            if s.done[0] != 'ret':
                r.check(s, False, fn + ' returns', P)
                continue
            r.again(s)
            res.append(s)
        return res


def run(budget=300):
    S_ = S21()
    # initial hooks are the real functions
    r = Run('fileinject', [T], dict(CON), P)
    r.ex.use_init = frozenset('hook_' + h for h in HOOKS)
    S_.runs.append(r)
    st = r.state()
    for h in HOOKS:
        p = r.gget(st, 'hook_' + h, 8, 0, True)
        r.check(st, isinstance(p, Ptr) and p.b.kind == 'func' and p.b.name == h, 'initially hook_%s is %s' % (h, h), P)
    # constant-result mocks
    for n, arm, w, rest in (('fopen', 'fopenSetReturn', 'p', 'fopenRestore'), ('ftell', 'ftellFail', 64, 'ftellRestore'),
                            ('fwrite', 'fwriteFail', 64, 'fwriteRestore'), ('fclose', 'fcloseIgnore', None, 'fcloseRestore'),
                            ('fseek', 'fseekSetReturn', 32, 'fseekRestore'), ('fread', 'freadFail', 64, 'freadRestore')):
        r, st = S_.mk()
        if n == 'fseek':
            c = z3.BitVec('passes', 32)
        s0 = st.copy()
        val = None if w is None else (Ptr(Obj('cfg', 'ext', 1), 0) if w == 'p' else z3.BitVec('configured', w))
        sts = S_.seq(r, st, arm, [] if val is None else [val])
        if n == 'fseek':
            nxt = []
            for s in sts:
                nxt += S_.seq(r, s, 'fseekSetCallsBeforeFailure', [c])
            sts = nxt
        r.cover(sts, arm)
        want = 0 if val is None else val
        for s in sts:
            S_.others(r, s0, s, n, arm)
            r.check(s, not s.ghost['log'], arm + ' calls nothing', P)
            args = args_for(n)
            if n == 'fseek':
                # inductive step of the countdown: armed(c) --call--> c > 0 (signed) ? forwarded, armed(c-1) : configured result, armed(c)
                for (s2, v, lg) in S_.calls(r, s, n, args):
                    fw = S_.is_forward(r, s2, v, lg, n, args)
                    c2 = r.gget(s2, 'g_fseekCallsToPass')
                    if lg:
                        r.check(s2, And(bv(c, 32) > 0, fw), 'fseek is forwarded unchanged exactly while calls are left to pass', P)
                        r.check(s2, Eq(c2, Sub(c, 1, 32), 32), 'fseek counts one passed call', P)
                    else:
                        r.check(s2, And(bv(c, 32) <= 0, Eq(v, want, 32)), 'fseek returns the configured result afterwards', P)
                        r.check(s2, Eq(c2, c, 32), 'fseek stays armed', P)
                    r.check(s2, S_.hook(r, s2, n) is not None and S_.hook(r, s2, n).b.name == S_.hook(r, s, n).b.name, 'fseek stays hooked', P)
                    S_.others(r, s0, s2, n, 'fseek')
                    r.check(s2, Eq(r.gget(s2, 'g_fseekFailureReturn'), want, 32), 'configured fseek result is kept', P)
            else:
                for (s2, v, lg) in S_.calls(r, s, n, args):
                    if w == 'p':
                        r.check(s2, same_val(v, want), n + ' returns the configured result', P)
                    else:
                        r.check(s2, Eq(v, want, WIDTH[n]), n + ' returns the configured result', P)
                    r.check(s2, not lg, n + ' calls nothing', P)
                    S_.others(r, s0, s2, n, n)
                    # and so does the next call, whatever its arguments
                    for (s3, v3, lg3) in S_.calls(r, s2, n, args_for(n)):
                        r.check(s3, same_val(v3, v) or (w != 'p' and S(tb(Eq(v3, want, WIDTH[n]))) is True), n + ' returns the configured result every time', P)
        # restore, from the armed state with arbitrary countdowns
        for s in sts:
            s = s.copy()
            for s2 in S_.seq(r, s, rest):
                S_.others(r, s0, s2, n, rest)
                args = args_for(n)
                for (s3, v, lg) in S_.calls(r, s2, n, args):
                    r.check(s3, S_.is_forward(r, s3, v, lg, n, args), n + ' is the real function again after restoring', P)
    # fread countdown
    r, st = S_.mk()
    val = z3.BitVec('configured', 64)
    c = z3.BitVec('toFail', 32)
    st.assume(bv(c, 32) > 0)
    for s in S_.seq(r, st, 'freadFail', [val]):
        for s1 in S_.seq(r, s, 'freadToFail', [c]):
            args = args_for('fread')
            hk = S_.hook(r, s1, 'fread')
            for (s2, v, lg) in S_.calls(r, s1, 'fread', args):
                c2 = r.gget(s2, 'g_freadToFail')
                if lg:
                    r.check(s2, And(Not(Eq(c, 1, 32)), S_.is_forward(r, s2, v, lg, 'fread', args)), 'fread before the chosen one is forwarded unchanged', P)
                    r.check(s2, And(Eq(c2, Sub(c, 1, 32), 32), S_.hook(r, s2, 'fread') is not None and S_.hook(r, s2, 'fread').b is hk.b), 'fread counts down', P)
                    r.check(s2, Eq(r.gget(s2, 'g_freadFailureReturn', 8), val, 64), 'configured fread result is kept', P)
                else:
                    r.check(s2, And(Eq(c, 1, 32), Eq(v, val, 64)), 'exactly the chosen fread fails with the configured result', P)
                    a2 = args_for('fread')
                    for (s3, v3, lg3) in S_.calls(r, s2, 'fread', a2):
                        r.check(s3, S_.is_forward(r, s3, v3, lg3, 'fread', a2), 'fread after the chosen one is the real function', P)
    # scripted lines
    fg(S_)
    return S_.runs


def fg(S_):
    cnt = z3.BitVec('lineCount', 32)
    r, st = S_.mk()
    strs = StrFam('line')
    strs.facts(st)
    arr = ArrFam('lines', strs, cnt)
    s0 = st.copy()
    sts = S_.seq(r, st, 'fgetsSetData', [Ptr(arr, 0, 0), ZX(cnt, 32, 64)])
    r.cover(sts, 'fgetsSetData')
    for s in sts:
        S_.others(r, s0, s, 'fgets', 'fgetsSetData')
        cur = r.gget(s, 'g_ppFgetsCurr', 8, 0, True)
        r.check(s, isinstance(cur, Ptr) and cur.b is arr and same_val(cur.off, 0), 'the script starts at its first line', P)
        # inductive step: cursor at line j <= count
        j = z3.BitVec('cursor', 32)
        s1 = s.copy()
        s1.assume(z3.ULE(j, cnt))
        r.gset(s1, 'g_ppFgetsCurr', Ptr(arr, Mul(ZX(j, 32, 64), 8, 64), 0), 8)
        sz = z3.BitVec('bufSize', 32)
        s1.assume(bv(sz, 32) > 0)
        buf = Obj('buf', 'heap', ZX(sz, 32, 64))
        s1.mem[buf] = Content({}, uf_store('buf0', 8, 64))
        f = Ptr(Obj('file', 'ext', 1), 0)
        for (s2, v, lg) in S_.calls(r, s1, 'fgets', [Ptr(buf, 0), sz, f]):
            r.check(s2, not lg, 'the script calls nothing', P)
            S_.others(r, s0, s2, 'fgets', 'fgets')
            cur = r.gget(s2, 'g_ppFgetsCurr', 8, 0, True)
            if isinstance(v, Ptr) and v.b is NULLOBJ:
                r.check(s2, Eq(j, cnt, 32), 'end of file only after the last line', P)
                r.check(s2, isinstance(cur, Ptr) and cur.b is arr and same_val(cur.off, 0), 'end of file rewinds', P)
                r.check(s2, s2.mem[buf] is s1.mem[buf] or s2.mem[buf].bg is s1.mem[buf].bg, 'end of file leaves the buffer alone', P)
                continue
            r.check(s2, ULT(j, cnt, 32), 'a line is returned only while lines are left', P)
            r.check(s2, isinstance(v, Ptr) and v.b is buf and same_val(v.off, 0), 'fgets returns the buffer', P)
            ok = isinstance(cur, Ptr) and cur.b is arr
            r.check(s2, ok and Eq(off64(cur.off), Mul(Add(ZX(j, 32, 64), 1, 64), 8, 64), 64), 'the cursor moves to the next line', P)
            L = strs.length(s2, j)
            lim = Sub(ZX(sz, 32, 64), 1, 64)
            k = z3.BitVec('k', 64)
            end = If(ULT(L, lim, 64), L, lim, 64)
            b = r.ex.byte_reader(s2, Ptr(buf, 0))(k)
            r.check(s2, Implies(ULT(k, end, 64), Eq(b, strs.ch(j, k), 8)), 'the buffer holds the line, truncated to fit', P)
            r.check(s2, Implies(Eq(k, end, 64), Eq(b, 0, 8)), 'the text is terminated', P)
        for x in ('g_ppFgetsStart', 'g_ppFgetsEnd'):
            pass
    for s in sts:
        for s2 in S_.seq(r, s.copy(), 'fgetsRestore'):
            S_.others(r, s0, s2, 'fgets', 'fgetsRestore')
            args = args_for('fgets')
            for (s3, v, lg) in S_.calls(r, s2, 'fgets', args):
                r.check(s3, S_.is_forward(r, s3, v, lg, 'fgets', args), 'fgets is the real function again after restoring', P)


ASSUMPTIONS = [
    'the real stdio functions are recorded calls with arbitrary results',
]

UNITS = [('all', P, run)]
